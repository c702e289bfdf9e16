module points

go 1.21
