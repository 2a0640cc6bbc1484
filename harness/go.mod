module verifharness

go 1.26.0

require (
	github.com/bernerdschaefer/eventsource v0.0.0-20130606115634-220e99a79763
	github.com/oklog/run v1.1.0
	github.com/oklog/ulid/v2 v2.1.0
	github.com/peterbourgon/ff/v4 v4.0.0-alpha.3
	github.com/peterbourgon/trc v0.0.0
	golang.org/x/net v0.61.0
	pgregory.net/rapid v1.3.0
)

replace github.com/peterbourgon/trc => /repo
