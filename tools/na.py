NOTE={}
NA={}
