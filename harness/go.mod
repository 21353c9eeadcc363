module vharness

go 1.22

require github.com/nlpodyssey/goslide v0.0.0

replace github.com/nlpodyssey/goslide => /repo
