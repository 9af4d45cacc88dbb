module lhaverif

go 1.21

require github.com/jeromelesaux/lha v0.0.0

replace github.com/jeromelesaux/lha => /repo
