SPECIFICATION TBSpec
CONSTANTS
  TInit <- ECInit
  TSucc <- ECSucc
  TWhy <- ECWhy
CHECK_DEADLOCK FALSE
