module prep

go 1.23
