module molecheck

go 1.23

require github.com/hsiaosiyuan0/mole v0.0.0

replace github.com/hsiaosiyuan0/mole => /repo
