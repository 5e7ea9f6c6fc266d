SPECIFICATION TBSpec
CONSTANTS
  TInit <- GRInit
  TSucc <- GRSucc
  TWhy <- GRWhy
CHECK_DEADLOCK FALSE
