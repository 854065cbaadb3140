module gocv

go 1.24
