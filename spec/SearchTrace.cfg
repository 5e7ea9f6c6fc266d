SPECIFICATION TBSpec
CONSTANTS
  TInit <- SRInit
  TSucc <- SRSucc
  TWhy <- SRWhy
CHECK_DEADLOCK FALSE
