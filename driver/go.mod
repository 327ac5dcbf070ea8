module vdriver

go 1.24
