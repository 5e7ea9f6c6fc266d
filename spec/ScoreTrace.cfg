SPECIFICATION TBSpec
CONSTANTS
  TInit <- SCInit
  TSucc <- SCSucc
  TWhy <- SCWhy
CHECK_DEADLOCK FALSE
