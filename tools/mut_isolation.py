Q='query-isolation'
A='engine/src/algo/'
M=[]
