module github.com/metafates/bento/verifh

go 1.22.5

require github.com/metafates/bento v0.0.0

replace github.com/metafates/bento => /repo

require (
	github.com/muesli/termenv v0.15.2
	github.com/rivo/uniseg v0.4.7
	golang.org/x/sys v0.29.0
)

require (
	github.com/aymanbagabas/go-osc52/v2 v2.0.1 // indirect
	github.com/charmbracelet/x/term v0.2.1 // indirect
	github.com/edwingeng/deque/v2 v2.1.1 // indirect
	github.com/erikgeiser/coninput v0.0.0-20211004153227-1c3628e74d0f // indirect
	github.com/lucasb-eyer/go-colorful v1.2.0 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	github.com/mattn/go-localereader v0.0.1 // indirect
	github.com/mattn/go-runewidth v0.0.15 // indirect
	github.com/muesli/cancelreader v0.2.2 // indirect
	golang.org/x/sync v0.10.0 // indirect
	golang.org/x/text v0.21.0 // indirect
)
