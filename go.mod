module github.com/fredbi/go-typeset/wordbreak/hyphenator/verif

go 1.23

require (
	github.com/fredbi/go-typeset v0.0.0
	golang.org/x/text v0.5.0
)

replace github.com/fredbi/go-typeset => /repo
