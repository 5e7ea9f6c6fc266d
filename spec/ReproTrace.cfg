SPECIFICATION TBSpec
CONSTANTS TInit <- RPInit
 TSucc <- RPSucc
 TWhy <- RPWhy
CHECK_DEADLOCK FALSE
