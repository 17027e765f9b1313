module det

go 1.23
