SPECIFICATION TBSpec
CONSTANTS
  TInit <- ITInit
  TSucc <- ITSucc
  TWhy <- ITWhy
CHECK_DEADLOCK FALSE
