module simtool

go 1.21
