module github.com/mewmew/float/verifmon

go 1.21

require github.com/mewmew/float v0.0.0

replace github.com/mewmew/float => /repo
