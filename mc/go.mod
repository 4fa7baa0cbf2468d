module verifmc

go 1.27

require github.com/inklabs/rangedb v0.0.0

replace github.com/inklabs/rangedb => /repo
