SPECIFICATION TBSpec
CONSTANTS
  TInit <- PLInit
  TSucc <- PLSucc
  TWhy <- PLWhy
CHECK_DEADLOCK FALSE
