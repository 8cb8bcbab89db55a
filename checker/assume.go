package main

// assumptions lists, per property, what the verdict takes for granted beyond
// the trusted base. They are written to the evidence of every run.
var assumptions = map[string][]string{
	"C01": {"sync.Pool hands out what was put in, once, or what New makes", "elements are not inspected by the queue (their type is opaque)"},
	"C02": {"sync.Pool hands out what was put in, once, or what New makes", "memory suffices (lengths below 2^52)"},
	"C03": {"sync.Pool hands out what was put in, once, or what New makes", "lengths below 2^52"},
	"C04": {"sync.Pool hands out what was put in, once, or what New makes", "the callback of an iteration does not change the list being iterated"},
	"C05": {"New is called with a capacity of at least 1"},
	"C06": {"memory suffices (extensions below 2^40)"},
	"C07": {"callbacks do not change the slice they are called on", "lengths to split at are below 2^32, a batch size is positive"},
	"C08": {"keys are totally ordered by < (no NaN)", "the map is not changed while an iterator is used, and not used from several goroutines", "the random source may give any bits"},
	"C09": {"keys are totally ordered by < (no NaN)", "the map is not changed by the callback of Range"},
	"C10": {"maps are made by New", "the callback of Each does not use the map"},
	"C11": {"the handler returns (does not panic or run for ever)", "channels, mutexes, goroutines and time.Ticker behave as the language and the library document", "the scheduler is fair"},
	"C12": {"the handler returns (does not panic or run for ever)", "channels, mutexes, goroutines and time.Ticker behave as the language and the library document"},
	"C13": {"one goroutine reads at a time", "fewer than 2^64 writes", "the viewer does not keep the buffer"},
	"C14": {"fewer than 2^64 writes"},
	"C15": {"mutexes, atomics, channels, contexts and timers behave as documented"},
	"C16": {"registered converters may do anything, also call the registry"},
	"C17": {"strconv behaves as documented"},
	"C23": nil,
	"C24": {"interval offsets and bands have magnitudes below 2^61, bands are not negative", "sort.Slice and slices.Sort* sort by the order they are given"},
	"C25": {"times within 2^55 seconds of the epoch", "package time computes the calendar as documented"},
	"C26": {"the constructor returns", "sync.Once and mutexes behave as documented"},
	"C28": {"closers do not use the manager they are registered with"},
	"C29": {"signal.Notify delivers as documented; the handler returns"},
	"C30": {"bit numbers are below the width of the underlying type"},
	"C32": {"the function returns or panics"},
	"C33": {"sync.Pool hands out what was put in, once, or what New makes"},
	"C34": {"package time behaves as documented"},
	"C35": {"timers fire when their duration is over"},
	"C36": {"values that callers share are synchronised by the callers", "functions of other packages that are documented to be safe for concurrent use are, and those known as read-only change nothing that is passed to them", "locks, atomic operations and sync.Once work as documented"},
	"C37": {"filepath.WalkDir and os/exec behave as documented", "the commands that are run change neither the process nor its directory"},
}
