SPECIFICATION TBSpec
CONSTANTS
  TInit <- VWInit
  TSucc <- VWSucc
  TWhy <- VWWhy
CHECK_DEADLOCK FALSE
