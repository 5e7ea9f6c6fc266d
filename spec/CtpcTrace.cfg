SPECIFICATION TBSpec
CONSTANTS
  TInit <- CTInit
  TSucc <- CTSucc
  TWhy <- CTWhy
CHECK_DEADLOCK FALSE
