module verif/harness

go 1.27

require (
	github.com/WatchBeam/amf0 v0.0.0
	github.com/WatchBeam/rtmp v0.0.0
	pgregory.net/rapid v1.3.0
)

replace (
	github.com/WatchBeam/amf0 => ./amf0
	github.com/WatchBeam/rtmp => /repo
)
