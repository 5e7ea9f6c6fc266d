SPECIFICATION TBSpec
CONSTANTS
  TInit <- IPInit
  TSucc <- IPSucc
  TWhy <- IPWhy
CHECK_DEADLOCK FALSE
