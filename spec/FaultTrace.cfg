SPECIFICATION TBSpec
CONSTANTS TInit <- FTInit
 TSucc <- FTSucc
 TWhy <- FTWhy
CHECK_DEADLOCK FALSE
