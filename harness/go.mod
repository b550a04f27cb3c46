module verifharness

go 1.24

require (
	github.com/fumiama/go-docx v0.0.0
	github.com/fumiama/imgsz v0.0.2
)

replace github.com/fumiama/go-docx => /repo
