//go:build go1.21

package rt

// AudioDev records what a simulated sound card plays, and when.
type AudioDev struct {
	Rate   int
	Frame  int // bytes per frame
	BufNS  int64
	Segs   []AudioSeg
	next   int64 // true time at which the next queued frame plays
	Closed bool
	Under  int
}

// AudioSeg is a contiguous run of frames starting to sound at At.
type AudioSeg struct {
	At   int64
	Data []byte
}

// Play queues p and blocks until it fits into the device buffer.
func (d *AudioDev) Play(p []byte) {
	frames := len(p) / d.Frame
	if frames == 0 {
		return
	}
	now := S.Now()
	if d.next < now {
		if d.next != 0 {
			d.Under++
		}
		d.next = now
	}
	d.Segs = append(d.Segs, AudioSeg{d.next, append([]byte(nil), p[:frames*d.Frame]...)})
	d.next += int64(frames) * 1e9 / int64(d.Rate)
	if w := d.next - d.BufNS - now; w > 0 {
		SleepTrue(w + S.Slack()/8)
	}
}
