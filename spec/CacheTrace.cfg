SPECIFICATION TBSpec
CONSTANTS
  TInit <- CAInit
  TSucc <- CASucc
  TWhy <- CAWhy
CHECK_DEADLOCK FALSE
