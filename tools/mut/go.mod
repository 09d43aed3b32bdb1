module mut

go 1.21
