SPECIFICATION TBSpec
CONSTANTS
  TInit <- NGInit
  TSucc <- NGSucc
  TWhy <- NGWhy
CHECK_DEADLOCK FALSE
