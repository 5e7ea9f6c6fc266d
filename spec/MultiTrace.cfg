SPECIFICATION TBSpec
CONSTANTS
  TInit <- MTInit
  TSucc <- MTSucc
  TWhy <- MTWhy
CHECK_DEADLOCK FALSE
