SPECIFICATION TBSpec
CONSTANTS
  TInit <- SYInit
  TSucc <- SYSucc
  TWhy <- SYWhy
CHECK_DEADLOCK FALSE
