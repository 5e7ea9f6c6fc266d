SPECIFICATION TBSpec
CONSTANTS
  TInit <- STInit
  TSucc <- STSucc
  TWhy <- STWhy
CHECK_DEADLOCK FALSE
