module gov

go 1.23
