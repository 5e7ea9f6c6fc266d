SPECIFICATION TBSpec
CONSTANTS
  TInit <- SMInit
  TSucc <- SMSucc
  TWhy <- SMWhy
CHECK_DEADLOCK FALSE
