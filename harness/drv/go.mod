module vharness

go 1.21

require github.com/scouter-contrib/scouter-agent-golang v0.0.0

require (
	github.com/emirpasic/gods v1.12.0 // indirect
	github.com/magiconair/properties v1.8.4 // indirect
)

replace github.com/scouter-contrib/scouter-agent-golang => /repo
