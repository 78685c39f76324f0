module vh20probe

go 1.23
