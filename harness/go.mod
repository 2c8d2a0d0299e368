module verifharness

go 1.21

require (
	github.com/Ptt-official-app/go-bbs v0.0.0
	golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f
)

require golang.org/x/text v0.3.8 // indirect

replace github.com/Ptt-official-app/go-bbs => /repo
