module zverif

go 1.25
