From 4731cabc44d0162d978e1c0e76ee9042c1a15f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 01/37] fix: RemoveSong panics when index equals the number of
 songs

---
 playback/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 97d81ef..06010a7 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -198,7 +198,7 @@ func (pl *Playlist) RemoveSong(index int) string {
 		index = 0
 	}
 	var removed string
-	if len(pl.songs) < index {
+	if len(pl.songs) <= index {
 		removed = pl.songs[len(pl.songs)-1]
 		pl.songs = pl.songs[:len(pl.songs)-1]
 	} else {
-- 
2.43.0


From d709b7e071c368f8913fb17801770568b4a9cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 02/37] fix: jumps block, cut off the wrong song or panic

SetPos blocked forever on the third jump while no song was playing, jumps
made between songs interrupted the song jumped to, a jump at the end of a
song could be off by one and negative positions made nextSong panic.
---
 playback/playlist.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 06010a7..3c43d68 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -51,7 +51,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
-			pl.position++
+			pl.advance()
 			continue
 		}
 
@@ -61,8 +61,12 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 }
 
 func (pl *Playlist) nextSong() (song string) {
-	pl.songsMutex.RLock()
-	defer pl.songsMutex.RUnlock()
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	// pending jumps are done by starting the song at position, they must not interrupt it
+	for 0 < len(pl.forceNext) {
+		<-pl.forceNext
+	}
 	if len(pl.songs) == 0 {
 		return ""
 	}
@@ -71,6 +75,15 @@ func (pl *Playlist) nextSong() (song string) {
 	return pl.songs[pos]
 }
 
+// advance moves on to the next song, unless a pending jump already set the position.
+func (pl *Playlist) advance() {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	if len(pl.forceNext) == 0 {
+		pl.position++
+	}
+}
+
 func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	buf := make([][2]float64, streamerBufferSize)
 	if pl.newSongHandler != nil {
@@ -99,7 +112,7 @@ func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) boo
 	}
 
 	if !ok || n < bufSize {
-		pl.position++
+		pl.advance()
 		return true
 	}
 	return false
@@ -137,9 +150,18 @@ func (pl *Playlist) callPauseToggleHandler() {
 }
 
 // SetPos jumps to the song at pos.
+// Negative positions are clipped to the start of the playlist.
 func (pl *Playlist) SetPos(pos int) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	if pos < 0 {
+		pos = 0
+	}
 	pl.position = pos
-	pl.forceNext <- true
+	select {
+	case pl.forceNext <- true:
+	default: // a jump is already pending
+	}
 }
 
 // Pos returns the position of the song currently being played.
-- 
2.43.0


From 93f9a910854fd02224ece0511b29d13d09db157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 03/37] fix: stream stops when no song in the playlist is
 readable

---
 playback/playlist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index 3c43d68..3af48ed 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -39,6 +39,7 @@ type Playlist struct {
 // It must be called once before streaming from the playlist and must not be called again before the returning after
 // the context was canceled.
 func (pl *Playlist) StreamLoop(ctx context.Context) {
+	skipped := 0
 	for !util.IsCanceled(ctx) {
 		filename := pl.nextSong()
 		if filename == "" {
@@ -52,9 +53,15 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
 			pl.advance()
+			if skipped++; len(pl.Songs()) <= skipped {
+				// no song can be played, keep the stream going and try again later
+				pl.pushNanSamples(noSongNanSampleCount)
+				skipped = 0
+			}
 			continue
 		}
 
+		skipped = 0
 		pl.pushStreamer(s)
 		pl.pushNanBreak()
 	}
-- 
2.43.0


From 81bf530d5522f2f2249f92181be977ddd6e2c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 04/37] fix: announced pauses can differ from the streamed ones

playing was read several times per buffer, so a pause or resume in between
was streamed without being announced or announced with the wrong value.
---
 playback/playlist.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 3af48ed..51f39cf 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -99,8 +99,7 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 
 	for {
 		n, ok := streamerBufferSize, true
-		pl.callPauseToggleHandler()
-		if pl.playing {
+		if pl.callPauseToggleHandler() {
 			n, ok = s.Stream(buf)
 			pl.pushBuffer(buf[:n])
 		} else {
@@ -149,11 +148,14 @@ func (pl *Playlist) pushSample(low, high float64) {
 	pl.sampleIndexWrite++
 }
 
-func (pl *Playlist) callPauseToggleHandler() {
-	if pl.playing != pl.playingLast && pl.pauseToggleHandler != nil {
-		pl.playingLast = pl.playing
-		go pl.pauseToggleHandler(pl.playing, pl.sampleIndexWrite)
+// callPauseToggleHandler announces changes of playing and returns the announced value.
+func (pl *Playlist) callPauseToggleHandler() bool {
+	playing := pl.playing
+	if playing != pl.playingLast && pl.pauseToggleHandler != nil {
+		pl.playingLast = playing
+		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
 	}
+	return playing
 }
 
 // SetPos jumps to the song at pos.
-- 
2.43.0


From 1576eaa0a24a53f34b7fcb214d16aff75f8b224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 05/37] fix: song announcements get lost when songs start in
 quick succession

createNewSongHandler runs in its own goroutine for every song and used a
shared field as scratch space: two quick songs made the server announce one
of them twice and the other never, and a late announcement could replace the
newer song late joiners are told about.
---
 schedule/server_state.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 31587e0..a9c199c 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -18,7 +18,8 @@ type serverState struct {
 	playlist *playback.Playlist
 	volume   float64
 
-	newestSong *comm.NewSongInfo
+	newestSong      *comm.NewSongInfo
+	newestSongMutex sync.RWMutex
 
 	pauses      []*comm.PauseInfo
 	pausesMutex sync.RWMutex
@@ -29,8 +30,11 @@ func (ss *serverState) sendVolume(s comm.MessageSender) {
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
-	if ss.newestSong != nil {
-		s.SendMessage(ss.newestSong)
+	ss.newestSongMutex.RLock()
+	newestSong := ss.newestSong
+	ss.newestSongMutex.RUnlock()
+	if newestSong != nil {
+		s.SendMessage(newestSong)
 	}
 }
 
@@ -77,7 +81,7 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		md := ss.metadataProvider.CollectMetadata(filename)
 
-		ss.newestSong = &comm.NewSongInfo{
+		newSong := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
 			SongFileName:           filename,
 			SongLength:             songLength,
@@ -88,7 +92,12 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 				Album:  md.Album,
 			},
 		}
-		ss.sender.SendMessage(ss.newestSong)
+		ss.newestSongMutex.Lock()
+		if ss.newestSong == nil || ss.newestSong.FirstSampleOfSongIndex <= startSampleIndex {
+			ss.newestSong = newSong
+		}
+		ss.newestSongMutex.Unlock()
+		ss.sender.SendMessage(newSong)
 	}
 }
 
@@ -109,7 +118,10 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 }
 
 func (ss *serverState) removablePauses() int {
-	if ss.newestSong == nil {
+	ss.newestSongMutex.RLock()
+	newestSong := ss.newestSong
+	ss.newestSongMutex.RUnlock()
+	if newestSong == nil {
 		return 0
 	}
 
@@ -118,7 +130,7 @@ func (ss *serverState) removablePauses() int {
 
 	passed := 0
 	for i, p := range ss.pauses {
-		inPast := ss.newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
+		inPast := newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
 		if !inPast && p.Playing {
 			passed = i
 		} else if inPast {
-- 
2.43.0


From 6e133f05655dd28b21284fa6cb768dbbd90f9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 06/37] fix: malformed messages crash the receiver

readWire trusted the length sent by the peer (a huge or negative one made the
allocation panic), ignored read errors in the middle of a message and used a
nil reader when the data was not compressed, so any client could take down
the server with a few bytes.
---
 comm/package_util.go | 46 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index ee2b73d..97b934a 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -14,6 +14,9 @@ import (
 
 const zlibLevel = 5
 
+// maxMessageSize is the size of the largest message accepted from a peer in bytes
+const maxMessageSize = 1 << 28
+
 func channelOf(m proto.Message) ([]Channel, bool) {
 	switch m.(type) {
 	case *QueueChunkRequest:
@@ -60,8 +63,14 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	if err != nil {
 		return nil, err
 	}
-	size := int64(binary.LittleEndian.Uint64(sizeBuf))
-	env, err := readBytes(conn, size)
+	size := binary.LittleEndian.Uint64(sizeBuf)
+	if maxMessageSize < size {
+		return nil, fmt.Errorf("message is too large: %d bytes", size)
+	}
+	env, err := readBytes(conn, int64(size))
+	if err != nil {
+		return nil, err
+	}
 
 	envelope := &Envelope{}
 	if err := proto.Unmarshal(env, envelope); err != nil {
@@ -74,17 +83,20 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	m := reflect.New(mType.Elem()).Interface().(proto.Message)
 
-	r, _ := zlib.NewReader(bytes.NewBuffer(envelope.Data))
-	data, _ := ioutil.ReadAll(r)
-	r.Close()
+	r, err := zlib.NewReader(bytes.NewBuffer(envelope.Data))
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
+	defer r.Close()
+	data, err := ioutil.ReadAll(io.LimitReader(r, maxMessageSize))
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
 
-	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
-		m = nil
-		e = fmt.Errorf("failed to unmarshal inner protobuf (%s): %v", envelope.Type, err)
+		return nil, fmt.Errorf("failed to unmarshal inner protobuf (%s): %v", envelope.Type, err)
 	}
-	return m, e
-
+	return m, nil
 }
 
 func sendWire(m proto.Message, conn net.Conn) error {
@@ -104,14 +116,10 @@ func sendWire(m proto.Message, conn net.Conn) error {
 }
 
 func readBytes(conn net.Conn, number int64) ([]byte, error) {
-	buf := make([]byte, number)
-	read := 0
-	for read < len(buf) {
-		n, err := conn.Read(buf[read:])
-		if err != nil {
-			return nil, err
-		}
-		read += n
+	// the buffer grows with the data received, not with the number the peer claims to send
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, conn, number); err != nil {
+		return nil, err
 	}
-	return buf, nil
+	return buf.Bytes(), nil
 }
-- 
2.43.0


From 4fdc9e6d0951e1deb60b62b47a8f84bfb28d4634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 07/37] fix: files of played songs are never closed

Every song played left up to three files open (the song itself, its lyrics
and the file read for its metadata), so that a long running server runs out
of file descriptors: no song and no client connection can be opened then.
---
 metadata/lyrics_provider.go   | 1 +
 metadata/metadata_provider.go | 1 +
 playback/playback.go          | 1 +
 playback/playlist.go          | 1 +
 4 files changed, 4 insertions(+)

diff --git a/metadata/lyrics_provider.go b/metadata/lyrics_provider.go
index 6662714..f7bfee5 100644
--- a/metadata/lyrics_provider.go
+++ b/metadata/lyrics_provider.go
@@ -38,6 +38,7 @@ func (basicLyricsProvider) CollectLyrics(song string) []LyricsLine {
 	if err != nil {
 		return []LyricsLine{}
 	}
+	defer f.Close()
 	result := make([]LyricsLine, 0)
 
 	if err := json.NewDecoder(f).Decode(&result); err != nil {
diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 7742357..2edab97 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -36,6 +36,7 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 	if err != nil {
 		return SongMetadata{}
 	}
+	defer f.Close()
 	md, err := tag.ReadFrom(f)
 	if err != nil {
 		return SongMetadata{}
diff --git a/playback/playback.go b/playback/playback.go
index 4012462..12c3817 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -40,6 +40,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 
 	s, _, err := mp3.Decode(f)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
 	}
 
diff --git a/playback/playlist.go b/playback/playlist.go
index 51f39cf..6e408a4 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -63,6 +63,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 
 		skipped = 0
 		pl.pushStreamer(s)
+		s.Close()
 		pl.pushNanBreak()
 	}
 }
-- 
2.43.0


From e476d2651feb6f01c41fdf252998dba104c2205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 08/37] fix: messages of a connection are handled in random
 order

Every message was handled in its own goroutine: players could queue chunks
out of order and players and infoers could end up with an old volume. A
subscription arriving before the server finished starting called a nil
handler. Queueing a chunk no longer waits for the samples of the previous
chunk to be played, which would now delay time synchronization.
---
 comm/conn_handler.go    | 12 +++++++++++-
 comm/package_handler.go | 32 ++++++++++++++++++++------------
 playback/streamer.go    | 30 +++++++++++++++++++-----------
 3 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 58ecd61..e0add46 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -12,15 +12,25 @@ type packageHandler interface {
 	Handle(message proto.Message, sender net.Conn)
 }
 
+// orderedPackageHandler is a packageHandler, which can handle messages one after the other
+type orderedPackageHandler interface {
+	handleOrdered(message proto.Message, sender net.Conn)
+}
+
 func handleConnection(conn net.Conn, h packageHandler) {
 	defer conn.Close()
+	handle := h.Handle
+	if oh, ok := h.(orderedPackageHandler); ok {
+		// the messages of a connection are handled in the order they were sent in
+		handle = oh.handleOrdered
+	}
 	for {
 		m, err := readWire(conn)
 		if err != nil {
 			logger.Infof("failed to read data from %s: %v. closing connection", conn.RemoteAddr(), err)
 			break
 		}
-		h.Handle(m, conn)
+		handle(m, conn)
 	}
 }
 
diff --git a/comm/package_handler.go b/comm/package_handler.go
index c57a5ac..0a5aef2 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -58,29 +58,35 @@ type TypedPackageHandlerInterface interface {
 	HandlePauseInfo(*PauseInfo, net.Conn)
 }
 
-// Handle forwards the message and sender to the matching Handle function of TypedPackageHandlerInterface
+// Handle forwards the message and sender to the matching Handle function of TypedPackageHandlerInterface,
+// which is run in its own goroutine
 func (t TypedPackageHandler) Handle(message proto.Message, sender net.Conn) {
+	go t.handleOrdered(message, sender)
+}
+
+// handleOrdered forwards the message and sender like Handle and returns after the message has been handled
+func (t TypedPackageHandler) handleOrdered(message proto.Message, sender net.Conn) {
 	switch message.(type) {
 	case *TimeSyncRequest:
-		go t.HandleTimeSyncRequest(message.(*TimeSyncRequest), sender)
+		t.HandleTimeSyncRequest(message.(*TimeSyncRequest), sender)
 	case *TimeSyncResponse:
-		go t.HandleTimeSyncResponse(message.(*TimeSyncResponse), sender)
+		t.HandleTimeSyncResponse(message.(*TimeSyncResponse), sender)
 	case *QueueChunkRequest:
-		go t.HandleQueueChunkRequest(message.(*QueueChunkRequest), sender)
+		t.HandleQueueChunkRequest(message.(*QueueChunkRequest), sender)
 	case *PingMessage:
-		go t.HandlePingMessage(message.(*PingMessage), sender)
+		t.HandlePingMessage(message.(*PingMessage), sender)
 	case *PongMessage:
-		go t.HandlePongMessage(message.(*PongMessage), sender)
+		t.HandlePongMessage(message.(*PongMessage), sender)
 	case *SetVolumeRequest:
-		go t.HandleSetVolumeRequest(message.(*SetVolumeRequest), sender)
+		t.HandleSetVolumeRequest(message.(*SetVolumeRequest), sender)
 	case *SubscribeChannelRequest:
-		go t.HandleSubscribeChannelRequest(message.(*SubscribeChannelRequest), sender)
+		t.HandleSubscribeChannelRequest(message.(*SubscribeChannelRequest), sender)
 	case *NewSongInfo:
-		go t.HandleNewSongInfo(message.(*NewSongInfo), sender)
+		t.HandleNewSongInfo(message.(*NewSongInfo), sender)
 	case *ChunkInfo:
-		go t.HandleChunkInfo(message.(*ChunkInfo), sender)
+		t.HandleChunkInfo(message.(*ChunkInfo), sender)
 	case *PauseInfo:
-		go t.HandlePauseInfo(message.(*PauseInfo), sender)
+		t.HandlePauseInfo(message.(*PauseInfo), sender)
 	}
 }
 
@@ -101,7 +107,9 @@ func (s serverPackageHandler) HandleTimeSyncRequest(tsr *TimeSyncRequest, c net.
 
 func (s serverPackageHandler) HandleSubscribeChannelRequest(scr *SubscribeChannelRequest, c net.Conn) {
 	s.sender.Subscribe(c, scr.Channel)
-	NewClientHandler(scr.Channel, &singleMessageSender{c})
+	if NewClientHandler != nil {
+		NewClientHandler(scr.Channel, &singleMessageSender{c})
+	}
 }
 
 func (s serverPackageHandler) HandlePingMessage(_ *PingMessage, c net.Conn) { PingHandler(c) }
diff --git a/playback/streamer.go b/playback/streamer.go
index 65337e3..c4aeade 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -80,22 +80,30 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	for !util.IsCanceled(ctx) {
-		if 0 < len(tms.chunks) {
-			tms.chunksMutex.RLock()
-			st := tms.chunks[0].startTime
-			for i, s := range tms.chunks[0].samples {
-				tms.samples.Add(s, st+tms.samplesDuration(i))
-			}
-			tms.chunksMutex.RUnlock()
-			tms.chunksMutex.Lock()
-			tms.chunks = tms.chunks[1:]
-			tms.chunksMutex.Unlock()
-		} else {
+		chunk := tms.nextChunk()
+		if chunk == nil {
 			time.Sleep(time.Millisecond)
+			continue
+		}
+		for i, s := range chunk.samples {
+			tms.samples.Add(s, chunk.startTime+tms.samplesDuration(i))
 		}
 	}
 }
 
+// nextChunk removes the first queued chunk and returns it, or nil if there is none.
+func (tms *timedMultiStreamer) nextChunk() *queuedChunk {
+	tms.chunksMutex.Lock()
+	defer tms.chunksMutex.Unlock()
+	if len(tms.chunks) == 0 {
+		return nil
+	}
+	chunk := tms.chunks[0]
+	tms.chunks[0] = nil
+	tms.chunks = tms.chunks[1:]
+	return chunk
+}
+
 func (tms *timedMultiStreamer) samplesDuration(n int) int64 {
 	return int64(tms.format.SampleRate.D(n) / time.Nanosecond)
 }
-- 
2.43.0


From dcde429bb85d5a6d9618e3dd745c0ec6df5066aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 09/37] fix: a stalled client blocks all other clients and the
 operators

SendMessage held the lock of the client list until every client had received
the message. When one client stopped reading, the next client connecting,
subscribing or leaving waited for that lock and with it every other message:
the music stopped for everybody and commands never returned. The lock is now
only held to collect the receivers and a client which does not receive a
message in ten seconds is disconnected. Disconnected clients are also removed
from the channels.
---
 comm/message_sender.go  | 35 +++++++++++++++++++++++------------
 comm/package_handler.go |  4 ++--
 comm/package_util.go    | 11 +++++++++++
 3 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index b94e60c..11ecbb1 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -3,12 +3,16 @@ package comm
 import (
 	"net"
 	"sync"
+	"time"
 
 	"github.com/LogicalOverflow/music-sync/util"
 
 	"github.com/golang/protobuf/proto"
 )
 
+// sendTimeout is the time a client has to receive a message, before it is disconnected
+const sendTimeout = 10 * time.Second
+
 // MessageSender is an interface used to send protobuf messages to clients/the server.
 type MessageSender interface {
 	// Sends a message to the server/all clients.
@@ -23,19 +27,17 @@ type multiMessageSender struct {
 }
 
 func (mms *multiMessageSender) SendMessage(m proto.Message) error {
-	mms.mutex.RLock()
-	defer mms.mutex.RUnlock()
-
-	chs, hasCh := channelOf(m)
+	// no lock is held while sending, a slow client must not keep others from connecting
+	receivers := mms.receivers(m)
 
 	var errCol util.ErrorCollector
 	var wg sync.WaitGroup
-	wg.Add(len(mms.connections))
+	wg.Add(len(receivers))
 
-	for _, c := range mms.connections {
+	for _, c := range receivers {
 		go func(c net.Conn) {
 			defer wg.Done()
-			if err := mms.sendMessageTo(m, c, hasCh, chs); err != nil {
+			if err := sendWireTimeout(m, c, sendTimeout); err != nil {
 				errCol.Add(err)
 			}
 		}(c)
@@ -47,11 +49,19 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	return errCol.Err("failed to send to %d clients: ")
 }
 
-func (mms *multiMessageSender) sendMessageTo(m proto.Message, c net.Conn, hasCh bool, chs []Channel) error {
-	if !hasCh || mms.isSubscribed(c, chs) {
-		return sendWire(m, c)
+// receivers returns the connections m has to be sent to
+func (mms *multiMessageSender) receivers(m proto.Message) []net.Conn {
+	chs, hasCh := channelOf(m)
+
+	mms.mutex.RLock()
+	defer mms.mutex.RUnlock()
+	receivers := make([]net.Conn, 0, len(mms.connections))
+	for _, c := range mms.connections {
+		if !hasCh || mms.isSubscribed(c, chs) {
+			receivers = append(receivers, c)
+		}
 	}
-	return nil
+	return receivers
 }
 
 func (mms *multiMessageSender) AddConn(c net.Conn) {
@@ -76,6 +86,7 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 		mms.connections[index] = mms.connections[len(mms.connections)-1]
 		mms.connections = mms.connections[:len(mms.connections)-1]
 	}
+	delete(mms.channels, c)
 }
 
 func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
@@ -111,5 +122,5 @@ func containsChannel(channels []Channel, ch Channel) bool {
 type singleMessageSender struct{ connection net.Conn }
 
 func (sms *singleMessageSender) SendMessage(m proto.Message) error {
-	return sendWire(m, sms.connection)
+	return sendWireTimeout(m, sms.connection, sendTimeout)
 }
diff --git a/comm/package_handler.go b/comm/package_handler.go
index 0a5aef2..ab146b0 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -100,7 +100,7 @@ type serverPackageHandler struct {
 func (s serverPackageHandler) HandleTimeSyncRequest(tsr *TimeSyncRequest, c net.Conn) {
 	serverRecv := timing.GetRawTime()
 	response := &TimeSyncResponse{ClientSendTime: tsr.ClientSend, ServerRecvTime: serverRecv, ServerSendTime: timing.GetRawTime()}
-	if err := sendWire(response, c); err != nil {
+	if err := sendWireTimeout(response, c, sendTimeout); err != nil {
 		logger.Warnf("failed to send handle time sync response: %v", err)
 	}
 }
@@ -120,7 +120,7 @@ func newServerPackageHandler(sender *multiMessageSender) TypedPackageHandler {
 
 // PingHandler handle a PingMessage
 func PingHandler(conn net.Conn) {
-	if err := sendWire(&PongMessage{}, conn); err != nil {
+	if err := sendWireTimeout(&PongMessage{}, conn, sendTimeout); err != nil {
 		logger.Warnf("failed to send ping response: %v", err)
 	}
 }
diff --git a/comm/package_util.go b/comm/package_util.go
index 97b934a..16a661f 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -10,6 +10,7 @@ import (
 	"io/ioutil"
 	"net"
 	"reflect"
+	"time"
 )
 
 const zlibLevel = 5
@@ -115,6 +116,16 @@ func sendWire(m proto.Message, conn net.Conn) error {
 	return nil
 }
 
+// sendWireTimeout sends m like sendWire, but closes conn if that takes longer than timeout
+func sendWireTimeout(m proto.Message, conn net.Conn, timeout time.Duration) error {
+	timer := time.AfterFunc(timeout, func() {
+		logger.Warnf("closing connection to %v: it did not receive a message in %v", conn.RemoteAddr(), timeout)
+		conn.Close()
+	})
+	defer timer.Stop()
+	return sendWire(m, conn)
+}
+
 func readBytes(conn net.Conn, number int64) ([]byte, error) {
 	// the buffer grows with the data received, not with the number the peer claims to send
 	var buf bytes.Buffer
-- 
2.43.0


From e1d10ad05a122678dcea50264afe0d978472dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 10/37] fix: no client can connect after a temporary accept
 error

The server stopped accepting connections for good when accepting one of them
failed, for example because the client had already gone again or too many
files were open.
---
 comm/conn_handler.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index e0add46..8f06581 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -6,8 +6,12 @@ import (
 	"github.com/golang/protobuf/proto"
 	"net"
 	"os"
+	"time"
 )
 
+// acceptRetryDelay is the time to wait after accepting a connection failed, before trying again
+const acceptRetryDelay = 100 * time.Millisecond
+
 type packageHandler interface {
 	Handle(message proto.Message, sender net.Conn)
 }
@@ -60,6 +64,11 @@ func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 	h := newServerPackageHandler(mms)
 	for {
 		conn, err := l.Accept()
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			logger.Errorf("failed to accept connection: %v. trying again", err)
+			time.Sleep(acceptRetryDelay)
+			continue
+		}
 		if err != nil {
 			logger.Fatalf("failed to accept connection: %v", err)
 			break
-- 
2.43.0


From 3aa6b1a5f38ad563098107dfb0a90dc11ae48705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 11/37] fix: stream falls behind for good when the server is
 slow

time.Tick drops ticks when a chunk takes too long to produce. Every dropped
tick delayed all following chunks by the length of a chunk, until they
reached the players too late to be played. Chunks sent from goroutines of
their own could also overtake each other, which mixes up the music.
---
 schedule/server_state.go | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index a9c199c..3372575 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -158,24 +158,42 @@ func (ss *serverState) streamMusic() {
 	time.Sleep(StreamStartDelay)
 	start := timing.GetSyncedTime() + int64(StreamDelay/time.Nanosecond)
 	index := int64(0)
+	begin := time.Now()
 	for range time.Tick(StreamChunkTime) {
-		low := make([]float64, StreamChunkSize)
-		high := make([]float64, StreamChunkSize)
+		// ticks are dropped if the server is slow, but the players still need all chunks in time
+		for due := int64(time.Since(begin) / StreamChunkTime); index < due; index++ {
+			ss.streamChunk(start, index)
+		}
+	}
+}
+
+func (ss *serverState) streamChunk(start, index int64) {
+	low := make([]float64, StreamChunkSize)
+	high := make([]float64, StreamChunkSize)
 
-		firstSampleIndex := ss.playlist.Fill(low, high)
+	firstSampleIndex := ss.playlist.Fill(low, high)
+	startTime := start + index*int64(StreamChunkTime/time.Nanosecond)
 
-		go ss.sender.SendMessage(&comm.QueueChunkRequest{
-			StartTime:        start + int64(index)*int64(StreamChunkTime/time.Nanosecond),
+	go ss.sender.SendMessage(&comm.ChunkInfo{
+		StartTime:        startTime,
+		FirstSampleIndex: firstSampleIndex,
+		ChunkSize:        uint64(StreamChunkSize),
+	})
+
+	sent := make(chan struct{})
+	go func() {
+		defer close(sent)
+		ss.sender.SendMessage(&comm.QueueChunkRequest{
+			StartTime:        startTime,
 			ChunkId:          index,
 			SampleLow:        low,
 			SampleHigh:       high,
 			FirstSampleIndex: firstSampleIndex,
 		})
-		go ss.sender.SendMessage(&comm.ChunkInfo{
-			StartTime:        start + int64(index)*int64(StreamChunkTime/time.Nanosecond),
-			FirstSampleIndex: firstSampleIndex,
-			ChunkSize:        uint64(StreamChunkSize),
-		})
-		index++
+	}()
+	// chunks have to arrive in order, but slow clients must not delay the stream
+	select {
+	case <-sent:
+	case <-time.After(StreamChunkTime / 2):
 	}
 }
-- 
2.43.0


From 8226e8e30c2a119d007b126ce2cec36cf2bc9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 12/37] fix: clients connecting late get wrong pauses

Pauses were recorded in a goroutine of their own: in the wrong order when
pausing and resuming quickly, and possibly after a client subscribed which
missed the pause being sent. Two goroutines could count the same old pauses
and remove them twice. A client not reading its pauses blocked recording
new ones.
---
 schedule/server_state.go | 45 ++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 3372575..8406d35 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -40,10 +40,12 @@ func (ss *serverState) sendNewestSong(s comm.MessageSender) {
 
 func (ss *serverState) sendPauses(s comm.MessageSender) {
 	ss.pausesMutex.RLock()
-	for _, p := range ss.pauses {
+	pauses := make([]*comm.PauseInfo, len(ss.pauses))
+	copy(pauses, ss.pauses)
+	ss.pausesMutex.RUnlock()
+	for _, p := range pauses {
 		s.SendMessage(p)
 	}
-	ss.pausesMutex.RUnlock()
 }
 
 func (ss *serverState) createClientHandler() func(comm.Channel, comm.MessageSender) {
@@ -107,17 +109,34 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 			Playing:           playing,
 			ToggleSampleIndex: sample,
 		}
-		go func(pause *comm.PauseInfo) {
-			ss.pausesMutex.Lock()
-			defer ss.pausesMutex.Unlock()
-			ss.pauses = append(ss.pauses, pause)
-			go ss.removeOldPauses()
-		}(pause)
+		// clients subscribing from now on have to get the pause from ss.pauses
+		ss.addPause(pause)
+		ss.removeOldPauses()
 		ss.sender.SendMessage(pause)
 	}
 }
 
+// addPause inserts pause into ss.pauses, which is sorted by sample index.
+func (ss *serverState) addPause(pause *comm.PauseInfo) {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+	i := len(ss.pauses)
+	for 0 < i && pause.ToggleSampleIndex < ss.pauses[i-1].ToggleSampleIndex {
+		i--
+	}
+	ss.pauses = append(ss.pauses, nil)
+	copy(ss.pauses[i+1:], ss.pauses[i:])
+	ss.pauses[i] = pause
+}
+
 func (ss *serverState) removablePauses() int {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+	return ss.countRemovablePauses()
+}
+
+// countRemovablePauses is removablePauses for callers holding pausesMutex.
+func (ss *serverState) countRemovablePauses() int {
 	ss.newestSongMutex.RLock()
 	newestSong := ss.newestSong
 	ss.newestSongMutex.RUnlock()
@@ -125,9 +144,6 @@ func (ss *serverState) removablePauses() int {
 		return 0
 	}
 
-	ss.pausesMutex.Lock()
-	defer ss.pausesMutex.Unlock()
-
 	passed := 0
 	for i, p := range ss.pauses {
 		inPast := newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
@@ -141,11 +157,10 @@ func (ss *serverState) removablePauses() int {
 }
 
 func (ss *serverState) removeOldPauses() {
-	removable := ss.removablePauses()
-	if 0 < removable {
-		ss.pausesMutex.Lock()
-		defer ss.pausesMutex.Unlock()
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
 
+	if removable := ss.countRemovablePauses(); 0 < removable {
 		copy(ss.pauses, ss.pauses[removable:])
 		for i := len(ss.pauses) - removable; i < len(ss.pauses); i++ {
 			ss.pauses[i] = nil
-- 
2.43.0


From 0b9d49609e0d8c133d566f68dcb1ca2c058b455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 13/37] fix: clients end up with different volumes

A volume command without a valid number silently set the volume for clients
connecting later to zero. Concurrent volume commands could reach clients in
different orders and a client subscribing while the volume changed could be
told the old volume last.
---
 schedule/server_state.go          | 32 +++++++++++++++++++++++++++++--
 schedule/server_state_commands.go | 10 ++++------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 8406d35..c357e04 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -16,7 +16,10 @@ type serverState struct {
 	metadataProvider metadata.Provider
 
 	playlist *playback.Playlist
-	volume   float64
+
+	volume         float64
+	volumeMutex    sync.RWMutex
+	setVolumeMutex sync.Mutex
 
 	newestSong      *comm.NewSongInfo
 	newestSongMutex sync.RWMutex
@@ -25,8 +28,33 @@ type serverState struct {
 	pausesMutex sync.RWMutex
 }
 
+func (ss *serverState) getVolume() float64 {
+	ss.volumeMutex.RLock()
+	defer ss.volumeMutex.RUnlock()
+	return ss.volume
+}
+
+// setVolume sets the volume and sends it to all clients.
+func (ss *serverState) setVolume(volume float64) error {
+	// all clients have to receive concurrent changes in the same order
+	ss.setVolumeMutex.Lock()
+	defer ss.setVolumeMutex.Unlock()
+
+	ss.volumeMutex.Lock()
+	ss.volume = volume
+	ss.volumeMutex.Unlock()
+	return ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: volume})
+}
+
 func (ss *serverState) sendVolume(s comm.MessageSender) {
-	s.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume})
+	for {
+		volume := ss.getVolume()
+		s.SendMessage(&comm.SetVolumeRequest{Volume: volume})
+		if volume == ss.getVolume() || volume != volume {
+			return
+		}
+		// the volume was changed meanwhile, the client may have received the new volume first
+	}
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 3b4c302..502db2e 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -2,7 +2,6 @@ package schedule
 
 import (
 	"fmt"
-	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/ssh"
 	"github.com/LogicalOverflow/music-sync/util"
@@ -162,15 +161,14 @@ func (ss *serverState) volumeCommand() ssh.Command {
 		Usage: "volume",
 		Info:  "set the playback volume",
 		ExecFunc: func(args []string) (string, bool) {
-			var ok bool
-			ss.volume, ok = parseFloatParam(args, 0)
+			volume, ok := parseFloatParam(args, 0)
 			if !ok {
 				return "", false
 			}
-			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
-				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
+			if err := ss.setVolume(volume); err != nil {
+				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
 			}
-			return fmt.Sprintf("setting volume to %.3f", ss.volume), true
+			return fmt.Sprintf("setting volume to %.3f", volume), true
 		},
 	}
 }
-- 
2.43.0


From 59c44e731971d6f5dbb274c6ec725bf291e99043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 14/37] fix: players cut off the beginning of songs and fall
 silent

streamSync played silence until a song had already been playing for the
length of its buffer and dropped everything before. It waited for samples
while none were queued and then used the time from before waiting, so that
the next song was played too late. A player whose clock was not synced yet
stopped writing audio at all.
---
 playback/streamer.go           | 45 ++++++++++++++++------------------
 playback/timed_sample_queue.go | 15 ++++++++++++
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index c4aeade..2fcb885 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -26,21 +26,23 @@ type timedMultiStreamer struct {
 }
 
 func (tms *timedMultiStreamer) Stream(samples [][2]float64) {
-	var n int
-	var drained bool
-	now := timing.GetSyncedTime()
-	for 0 < len(samples) {
+	for filled := 0; filled < len(samples); {
+		var n int
+		var drained bool
 		if tms.syncing {
-			n, drained = tms.streamSync(samples, now)
+			// streamDirect can take long, so now has to be determined every time
+			now := timing.GetSyncedTime() + tms.samplesDuration(filled)
+			n, drained = tms.streamSync(samples[filled:], now)
 		} else {
-			n, drained = tms.streamDirect(samples)
+			n, drained = tms.streamDirect(samples[filled:])
 		}
-		now += tms.samplesDuration(n)
-		samples = samples[n:]
+		filled += n
 		if drained {
 			tms.syncing = !tms.syncing
-			_, t := tms.samples.Peek()
-			logger.Debugf("playback error: %s", time.Duration(t-now)*time.Nanosecond)
+			if _, t, ok := tms.samples.TryPeek(); ok {
+				now := timing.GetSyncedTime() + tms.samplesDuration(filled)
+				logger.Debugf("playback error: %s", time.Duration(t-now)*time.Nanosecond)
+			}
 		}
 	}
 }
@@ -56,26 +58,21 @@ func (tms *timedMultiStreamer) streamDirect(samples [][2]float64) (n int, draine
 	return len(samples), false
 }
 
+// streamSync streams silence until the time of the next song's first sample.
+// Samples which should have been played before now are dropped.
 func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n int, drained bool) {
-	s, t := tms.samples.Peek()
-	for math.IsNaN(s[0]) {
+	s, t, ok := tms.samples.TryPeek()
+	for ok && (math.IsNaN(s[0]) || t < now) {
 		tms.samples.Remove()
-		s, t = tms.samples.Peek()
+		s, t, ok = tms.samples.TryPeek()
 	}
-	if now < t+tms.samplesDuration(len(samples)) {
+	if !ok || now+tms.samplesDuration(len(samples)) <= t {
 		tms.background.Stream(samples)
 		return len(samples), false
-	} else if now < t {
-		silence := tms.samplesCount(t - now)
-		tms.background.Stream(samples[:silence])
-		return silence, true
-	} else {
-		for t < now {
-			tms.samples.Remove()
-			_, t = tms.samples.Peek()
-		}
-		return 0, true
 	}
+	silence := tms.samplesCount(t - now)
+	tms.background.Stream(samples[:silence])
+	return silence, true
 }
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
diff --git a/playback/timed_sample_queue.go b/playback/timed_sample_queue.go
index 4f85177..08e69f6 100644
--- a/playback/timed_sample_queue.go
+++ b/playback/timed_sample_queue.go
@@ -47,6 +47,21 @@ func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
 	return v.sample, v.time
 }
 
+// TryPeek is Peek, but returns false instead of waiting if the queue is empty.
+func (q *timedSampleQueue) TryPeek() (sample [2]float64, time int64, ok bool) {
+	q.tailMutex.RLock()
+	defer q.tailMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
+
+	if q.empty() {
+		return
+	}
+
+	v := q.buffer[q.tail%len(q.buffer)]
+	return v.sample, v.time, true
+}
+
 func (q *timedSampleQueue) Len() int {
 	q.tailMutex.RLock()
 	defer q.tailMutex.RUnlock()
-- 
2.43.0


From 39b418e21b6783785c5df2224f50f45ad5990cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 15/37] fix: loudest positive samples are played as loudest
 negative ones

Samples of 1 and above overflowed when converted to 16 bit, which is a loud
crack whenever the volume is set above 100%.
---
 playback/playback.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/playback/playback.go b/playback/playback.go
index 12c3817..d88c85b 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/util"
+	"math"
 	"os"
 	"path"
 	"time"
@@ -146,7 +147,11 @@ func convertSampleToBytes(val float64) (low, high byte) {
 	if val > +1 {
 		val = +1
 	}
-	valInt16 := int16(val * (1 << 15))
+	val *= 1 << 15
+	if math.MaxInt16 < val {
+		val = math.MaxInt16
+	}
+	valInt16 := int16(val)
 	low = byte(valInt16)
 	high = byte(valInt16 >> 8)
 	return
-- 
2.43.0


From 17f610220613e3a1fe49a61fe0de6043b028c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 16/37] fix: starting player can ignore the volume

Init runs while the player already receives messages, so that it could
overwrite the volume sent by the server with the default.
---
 playback/playback.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index d88c85b..e1e50d0 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -24,7 +24,7 @@ var (
 	format     beep.Format
 	streamer   *timedMultiStreamer
 	bufferSize int
-	volume     float64
+	volume     = .1
 )
 
 var logger = log.GetLogger("play")
@@ -82,7 +82,6 @@ func Init(sampleRate int) error {
 	logger.Infof("initializing playback")
 	var err error
 
-	volume = .1
 	format = beep.Format{SampleRate: beep.SampleRate(sampleRate), NumChannels: 2, Precision: 2}
 
 	bufferSize = format.SampleRate.N(time.Second / 10)
-- 
2.43.0


From f5d9202ae1015df40666dd194848e04754af1144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 17/37] fix: completing a line with extra spaces crashes the
 server

---
 ssh/auto_completer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 24519a8..c261a8c 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -41,7 +41,7 @@ func (sac *sshAutoCompleter) commandNames() []string {
 func (sac *sshAutoCompleter) commandsWithPrefix(cmd parser.ParsedCommand, pos int, result [][]rune) [][]rune {
 	for _, c := range sac.commandNames() {
 		if strings.HasPrefix(c, cmd.Command) {
-			result = append(result, []rune((c + " ")[pos:]))
+			result = append(result, []rune((c + " ")[len(cmd.Command):]))
 		}
 	}
 	return result
@@ -52,9 +52,11 @@ func (sac *sshAutoCompleter) commandArgOptionsWithPrefix(cmd parser.ParsedComman
 	if c != nil {
 		argNum := len(cmd.Parameters) - 1
 		arg := cmd.Parameters[argNum]
+		// the line can contain more spaces than the unparsed command, so pos cannot be used here
+		typed := len([]rune(cmd.Unparse())) - 1
 		for _, o := range sac.filterByPrefix(c.Options(arg, argNum), arg) {
 			cmd.Parameters[argNum] = o
-			result = append(result, []rune(cmd.Unparse())[pos:])
+			result = append(result, []rune(cmd.Unparse())[typed:])
 		}
 		cmd.Parameters[argNum] = arg
 	}
-- 
2.43.0


From 6ff2e7cd1a02d1e6fc05d44cacd800834bc6809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 18/37] fix: songs cannot be queued with a music directory like
 ./audio

---
 util/file_utils.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index f8b27c7..77f01ad 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -35,13 +35,14 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 }
 
 func removeDirPrefix(path string, prefix string) string {
-	if strings.HasPrefix(path, prefix) {
-		path = path[len(prefix):]
+	rel, err := filepath.Rel(prefix, path)
+	if err != nil {
+		return path
 	}
-	if strings.HasPrefix(path, "/") || strings.HasPrefix(path, "\\") {
-		path = path[1:]
+	if rel == "." {
+		return ""
 	}
-	return path
+	return rel
 }
 
 // ListAllFiles recursively lists all files in songsDir/subDir
-- 
2.43.0


From bd268df289e427a0453a0b6a379bfd0a83f8eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 19/37] fix: commands with non-ASCII characters are
 misunderstood

---
 ssh/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 0fe4056..e3630b8 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -62,8 +62,8 @@ func (s *shellListener) EnterCommandString(ctx *shell_parser.CommandStringContex
 }
 
 func (s *shellListener) ExitCharacter(ctx *shell_parser.CharacterContext) {
-	if len(ctx.GetText()) != 0 {
-		s.currentString += string(ctx.GetText()[len(ctx.GetText())-1])
+	if text := []rune(ctx.GetText()); len(text) != 0 {
+		s.currentString += string(text[len(text)-1])
 	}
 }
 
-- 
2.43.0


From d17d1514bde88311a5fe5ae438e1ce86db51f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 20/37] fix: infoer crashes if it cannot connect to the server

---
 cmd/music-sync-infoer/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 32f37a4..0047fe7 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -53,7 +53,8 @@ func run(ctx *cli.Context) error {
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
 	if err != nil {
-		cli.NewExitError(err, 1)
+		s.Fini()
+		return cli.NewExitError(err, 1)
 	}
 
 	go schedule.Infoer(sender)
-- 
2.43.0


From 2ddf2127376f345c10a7f2f1a0c4d1b918400848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 21/37] fix: texts with non-ASCII characters are displayed with
 gaps

---
 cmd/music-sync-infoer/drawing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 7dbd956..fe8d424 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -29,7 +29,7 @@ func (d *drawer) eventLoop() {
 }
 
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
-	for i, r := range str {
+	for i, r := range []rune(str) {
 		d.SetContent(x+i, y, r, nil, style)
 	}
 }
-- 
2.43.0


From a70d948e44cccc6f89f3fbdaab9b3f29fd9902ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 22/37] fix: interrupting a line executes it

---
 ssh/session_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d6e539c..81ef71d 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -112,6 +112,7 @@ func (s *session) readLoop() {
 	for {
 		line, err := s.ex.Readline()
 		if err == readline.ErrInterrupt {
+			continue
 		} else if err == io.EOF {
 			logger.Infof("connection %s as %s closed", s.RemoteAddr(), s.User())
 			return
-- 
2.43.0


From c375bc40bed065e53fc09a2f64016d9af92b48d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 23/37] fix: infoer leaves the terminal unusable when it loses
 its server

---
 cmd/music-sync-infoer/drawing.go |  3 +++
 cmd/music-sync-infoer/main.go    |  1 +
 comm/conn_handler.go             | 13 ++++++++++++-
 schedule/infoer.go               |  3 +--
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index fe8d424..ec9a856 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -22,6 +22,9 @@ func (d *drawer) eventLoop() {
 		case *tcell.EventResize:
 			d.Sync()
 			d.w, d.h = d.Size()
+		case nil:
+			// the screen was closed, because the infoer is about to exit
+			select {}
 		default:
 			panic(fmt.Sprintf("%T", ev))
 		}
diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 0047fe7..b80e7cc 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -49,6 +49,7 @@ func run(ctx *cli.Context) error {
 	schedule.SampleRate = sampleRate
 
 	s := createTcellScreen()
+	comm.ConnectionLostHandler = s.Fini
 
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 8f06581..f1920fb 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -84,6 +84,17 @@ func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 	}
 }
 
+// ConnectionLostHandler is called before a client exits, because its connection to the server is lost.
+var ConnectionLostHandler func()
+
+// ConnectionLost exits a client, whose connection to the server is lost
+func ConnectionLost() {
+	if ConnectionLostHandler != nil {
+		ConnectionLostHandler()
+	}
+	os.Exit(1)
+}
+
 // ConnectToServer connects to the server at server and returns a MessageSender to communicate with the master
 func ConnectToServer(master string, handler TypedPackageHandler) (MessageSender, error) {
 	logger.Infof("connecting to master at %s", master)
@@ -96,7 +107,7 @@ func ConnectToServer(master string, handler TypedPackageHandler) (MessageSender,
 	go func() {
 		handleConnection(conn, handler)
 		logger.Fatalf("connection to master closed")
-		os.Exit(1)
+		ConnectionLost()
 	}()
 	return &singleMessageSender{connection: conn}, nil
 }
diff --git a/schedule/infoer.go b/schedule/infoer.go
index eb4fa0e..aa21050 100644
--- a/schedule/infoer.go
+++ b/schedule/infoer.go
@@ -3,7 +3,6 @@ package schedule
 import (
 	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/timing"
-	"os"
 	"time"
 )
 
@@ -19,7 +18,7 @@ func Infoer(sender comm.MessageSender) {
 	go func() {
 		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_META}); err != nil {
 			logger.Errorf("failed to subscribe to meta channel")
-			os.Exit(1)
+			comm.ConnectionLost()
 		}
 	}()
 }
-- 
2.43.0


From b6919270426952bb3eaf0a55e30157fe65132b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 24/37] fix: songs queued together can be torn apart or
 reversed

---
 playback/playlist.go              | 21 +++++++++++++++------
 schedule/server_state_commands.go |  9 ++-------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 6e408a4..226faa6 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -195,26 +195,35 @@ func (pl *Playlist) Songs() []string {
 
 // AddSong adds a song at the end of the playlist.
 func (pl *Playlist) AddSong(song string) {
+	pl.AddSongs([]string{song})
+}
+
+// AddSongs adds songs at the end of the playlist.
+func (pl *Playlist) AddSongs(songs []string) {
 	pl.songsMutex.Lock()
 	defer pl.songsMutex.Unlock()
-	pl.songs = append(pl.songs, song)
+	pl.songs = append(pl.songs, songs...)
 }
 
 // InsertSong inserts a song into the playlist.
 // The index is clipped to the bounds of the playlist.
 func (pl *Playlist) InsertSong(song string, index int) {
+	pl.InsertSongs([]string{song}, index)
+}
+
+// InsertSongs inserts songs into the playlist, one after the other.
+// The index is clipped to the bounds of the playlist.
+func (pl *Playlist) InsertSongs(songs []string, index int) {
 	pl.songsMutex.Lock()
 	defer pl.songsMutex.Unlock()
 	if index < 0 {
 		index = 0
 	}
 	if len(pl.songs) < index {
-		pl.songs = append(pl.songs, song)
-	} else {
-		pl.songs = append(pl.songs, "")
-		copy(pl.songs[index+1:], pl.songs[index:])
-		pl.songs[index] = song
+		index = len(pl.songs)
 	}
+	tail := append([]string{}, pl.songs[index:]...)
+	pl.songs = append(append(pl.songs[:index], songs...), tail...)
 }
 
 // RemoveSong remove the song at index from the playlist and returns the removed song.
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 502db2e..7d13515 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -53,15 +53,10 @@ func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 		return fmt.Sprintf("no song matches the glob pattern %s", songPattern), true
 	}
 
-	var insert func(string, int)
 	if pos, ok := parseIntParam(args, 1); ok {
-		insert = func(s string, i int) { ss.playlist.InsertSong(s, pos+i) }
+		ss.playlist.InsertSongs(songs, pos)
 	} else {
-		insert = func(s string, _ int) { ss.playlist.AddSong(s) }
-	}
-
-	for i, s := range songs {
-		insert(s, i)
+		ss.playlist.AddSongs(songs)
 	}
 	return fmt.Sprintf("%d song(s) added to playlist: %s", len(songs), strings.Join(songs, ", ")), true
 }
-- 
2.43.0


From 2ec3738a79b7bdcbfce7260872077160dabe3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 25/37] fix: playlist command shows songs and playback state of
 different moments

---
 playback/playlist.go              | 23 +++++++++++++++++++++--
 schedule/server_state_commands.go |  5 ++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 226faa6..ede4932 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -47,7 +47,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 			continue
 		}
 
-		pl.currentSong = filename
+		pl.setCurrentSong(filename)
 
 		s, err := getStreamer(filename)
 		if err != nil {
@@ -151,7 +151,7 @@ func (pl *Playlist) pushSample(low, high float64) {
 
 // callPauseToggleHandler announces changes of playing and returns the announced value.
 func (pl *Playlist) callPauseToggleHandler() bool {
-	playing := pl.playing
+	playing := pl.Playing()
 	if playing != pl.playingLast && pl.pauseToggleHandler != nil {
 		pl.playingLast = playing
 		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
@@ -266,19 +266,38 @@ func (pl *Playlist) Fill(low []float64, high []float64) uint64 {
 
 // Playing returns true if the playlist is currently playing audio.
 func (pl *Playlist) Playing() bool {
+	pl.songsMutex.RLock()
+	defer pl.songsMutex.RUnlock()
 	return pl.playing
 }
 
 // SetPlaying can set whether or not the playlist should be playing audio.
 func (pl *Playlist) SetPlaying(p bool) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	pl.playing = p
 }
 
 // CurrentSong returns the song currently being played
 func (pl *Playlist) CurrentSong() string {
+	pl.songsMutex.RLock()
+	defer pl.songsMutex.RUnlock()
 	return pl.currentSong
 }
 
+func (pl *Playlist) setCurrentSong(song string) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	pl.currentSong = song
+}
+
+// Status returns all songs in the playlist, whether it is playing and the current song, all of the same moment.
+func (pl *Playlist) Status() (songs []string, playing bool, currentSong string) {
+	pl.songsMutex.RLock()
+	defer pl.songsMutex.RUnlock()
+	return append([]string{}, pl.songs...), pl.playing, pl.currentSong
+}
+
 // SetNewSongHandler sets the new song handler, which is called every time the playlist begins playing a new song
 func (pl *Playlist) SetNewSongHandler(nsh func(startSampleIndex uint64, filename string, songLength int64)) {
 	pl.newSongHandler = nsh
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 7d13515..ac234c3 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -84,14 +84,14 @@ func (ss *serverState) queueCommand() ssh.Command {
 }
 
 func (ss *serverState) playlistCommandExc([]string) (string, bool) {
-	songs := ss.playlist.Songs()
+	songs, playing, currSong := ss.playlist.Status()
 	entries := make([]string, len(songs))
 	format := fmt.Sprintf("  [%%0%dd] %%s", len(strconv.Itoa(len(songs)-1)))
 	for i, s := range songs {
 		entries[i] = fmt.Sprintf(format, i, s)
 	}
 	var playingStatus string
-	if ss.playlist.Playing() {
+	if playing {
 		playingStatus = "Playing"
 	} else {
 		playingStatus = "Paused"
@@ -101,7 +101,6 @@ func (ss *serverState) playlistCommandExc([]string) (string, bool) {
 	if 0 < len(entries) {
 		songList = "\n" + strings.Join(entries, "\n")
 	}
-	currSong := ss.playlist.CurrentSong()
 	if currSong == "" {
 		currSong = "None"
 	}
-- 
2.43.0


From c11d08eb3f13d7e03f5fd35af0fd13ccc4db9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 26/37] fix: a delayed time synchronisation leaves clients out
 of time

---
 timing/timing.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/timing/timing.go b/timing/timing.go
index 6ac7ec1..301c303 100644
--- a/timing/timing.go
+++ b/timing/timing.go
@@ -5,6 +5,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/logging"
 	"github.com/aristanetworks/goarista/monotime"
 	"math/big"
+	"sort"
 	"sync"
 )
 
@@ -12,6 +13,7 @@ var logger = log.GetLogger("time")
 
 var offset int64
 var offsets = make([]int64, 0)
+var roundTrips = make([]int64, 0)
 var offsetsMutex sync.Mutex
 
 // GetSyncedTime returns the current time, sync to the sever, with nanosecond precision
@@ -28,6 +30,7 @@ func GetRawTime() int64 {
 func ResetOffsets(cap int) {
 	offsetsMutex.Lock()
 	offsets = make([]int64, 0, cap)
+	roundTrips = make([]int64, 0, cap)
 	offsetsMutex.Unlock()
 }
 
@@ -37,18 +40,34 @@ func UpdateOffset(clientSend, serverRecv, serverSend, clientRecv int64) {
 
 	calcOffset := ((serverRecv - clientSend) + (serverSend - clientRecv)) / 2
 	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
 	offsets = append(offsets, calcOffset)
-	offsetsMutex.Unlock()
+	roundTrips = append(roundTrips, (clientRecv-clientSend)-(serverSend-serverRecv))
 
 	if len(offsets) == cap(offsets) {
-		offsetsMutex.Lock()
+		best := bestOffsets()
 		avg := big.NewInt(0)
-		for _, o := range offsets {
+		for _, o := range best {
 			avg = new(big.Int).Add(avg, big.NewInt(o))
 		}
-		avg = new(big.Int).Div(avg, big.NewInt(int64(len(offsets))))
+		avg = new(big.Int).Div(avg, big.NewInt(int64(len(best))))
 		offset = avg.Int64()
-		offsetsMutex.Unlock()
 		logger.Infof("time synced: offset: %d", offset)
 	}
 }
+
+// bestOffsets returns the offsets of the quarter of the exchanges with the shortest round trips.
+// The offset of an exchange can be wrong by half of its round trip, so delayed ones must not be used.
+func bestOffsets() []int64 {
+	order := make([]int, len(offsets))
+	for i := range order {
+		order[i] = i
+	}
+	sort.SliceStable(order, func(i, j int) bool { return roundTrips[order[i]] < roundTrips[order[j]] })
+
+	best := make([]int64, 0, len(order)/4+1)
+	for _, i := range order[:(len(order)+3)/4] {
+		best = append(best, offsets[i])
+	}
+	return best
+}
-- 
2.43.0


From c2cc9ca9c42f4622ab6123e002d2252a2798c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 27/37] fix: clients that connect while the server starts are
 never told its state

---
 cmd/music-sync-server/main.go |  6 ++++--
 comm/conn_handler.go          | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmd/music-sync-server/main.go b/cmd/music-sync-server/main.go
index a5f1fe5..d06ce6d 100644
--- a/cmd/music-sync-server/main.go
+++ b/cmd/music-sync-server/main.go
@@ -90,7 +90,7 @@ func run(ctx *cli.Context) error {
 	playback.AudioDir = musicDir
 	setScheduleVars(ctx)
 
-	sender, err := comm.StartServer(listen)
+	sender, serve, err := comm.PrepareServer(listen)
 	if err != nil {
 		return cli.NewExitError(err, 1)
 	}
@@ -101,8 +101,10 @@ func run(ctx *cli.Context) error {
 	}
 
 	ssh.HostKeyFile = sshKeyFile
+	// everything has to be in place before the first client or operator is served
+	schedule.Server(sender)
+	serve()
 	go ssh.StartSSH(sshListen, users)
-	go schedule.Server(sender)
 
 	cmd.WaitForInterrupt()
 	return nil
diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index f1920fb..e691d5f 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -45,19 +45,27 @@ var NewClientHandler func(channel Channel, conn MessageSender)
 // StartServer starts a music-sync server listening at address and returns a MessageSender to broadcast
 // to clients
 func StartServer(address string) (MessageSender, error) {
+	sender, serve, err := PrepareServer(address)
+	if err != nil {
+		return nil, err
+	}
+	serve()
+	return sender, nil
+}
+
+// PrepareServer starts a music-sync server like StartServer, but it accepts no client before serve is called
+func PrepareServer(address string) (sender MessageSender, serve func(), err error) {
 	logger.Infof("starting server at %s", address)
 
 	l, err := net.Listen("tcp", address)
 	if err != nil {
 		logger.Fatalf("failed to start server at %s: %v", address, err)
-		return nil, fmt.Errorf("failed to start server at %s: %v", address, err)
+		return nil, nil, fmt.Errorf("failed to start server at %s: %v", address, err)
 	}
 	logger.Infof("server running at %s", address)
 
 	mms := &multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}
-	go serverConnectionAcceptor(mms, l)
-
-	return mms, nil
+	return mms, func() { go serverConnectionAcceptor(mms, l) }, nil
 }
 
 func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
-- 
2.43.0


From f8c3a43ec45af5199f5e5eed88f5f5ef6d3b9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 28/37] fix: logging flags of the single packages have no
 effect

---
 cmd/flags.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmd/flags.go b/cmd/flags.go
index 81bc75d..3acce67 100644
--- a/cmd/flags.go
+++ b/cmd/flags.go
@@ -70,10 +70,13 @@ func newLoggingFlag(name string) LoggingFlag {
 	}
 	levels := strings.Join(l, ", ")
 
-	return LoggingFlag{StringFlag: cli.StringFlag{
-		Name:  fmt.Sprintf("%s-logging", name),
-		Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
-	}}
+	return LoggingFlag{
+		StringFlag: cli.StringFlag{
+			Name:  fmt.Sprintf("%s-logging", name),
+			Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
+		},
+		logName: name,
+	}
 }
 
 // HandleLoggingFlags sets the log levels according to the logging cli flags
@@ -82,7 +85,7 @@ func HandleLoggingFlags(ctx *cli.Context) {
 		levelName := ctx.String(FlagKey(f))
 		if levelName != "" {
 			level := log.LevelByName(levelName)
-			log.CutoffLevels[f.Name] = level
+			log.CutoffLevels[f.logName] = level
 		}
 	}
 	defaultLevelName := ctx.String("logging")
-- 
2.43.0


From 5633f8d6278be179037f4b7dc8fb94c1f9093396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 29/37] fix: chunks can be swapped when the server is suspended

---
 schedule/server_state.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index c357e04..fce3cc9 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -235,8 +235,14 @@ func (ss *serverState) streamChunk(start, index int64) {
 		})
 	}()
 	// chunks have to arrive in order, but slow clients must not delay the stream
-	select {
-	case <-sent:
-	case <-time.After(StreamChunkTime / 2):
+	for waiting := true; waiting; {
+		since := time.Now()
+		select {
+		case <-sent:
+			waiting = false
+		case <-time.After(StreamChunkTime / 2):
+			// if this was much longer, the server was suspended before the chunk could be sent
+			waiting = StreamChunkTime*5/8 < time.Since(since)
+		}
 	}
 }
-- 
2.43.0


From ac932684a1b53704a95eaf1b7051976e8d0477c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:32 +0000
Subject: [PATCH 30/37] fix: malformed tags of a song do not crash the server

---
 metadata/metadata_provider.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 2edab97..9c6e353 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -1,9 +1,11 @@
 package metadata
 
 import (
+	"fmt"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/util"
 	"github.com/dhowden/tag"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -37,7 +39,7 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 		return SongMetadata{}
 	}
 	defer f.Close()
-	md, err := tag.ReadFrom(f)
+	md, err := readTags(f)
 	if err != nil {
 		return SongMetadata{}
 	}
@@ -47,3 +49,13 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 		Album:  md.Album(),
 	}
 }
+
+// readTags is tag.ReadFrom, but returns an error where that panics because of malformed tags.
+func readTags(r io.ReadSeeker) (md tag.Metadata, err error) {
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("malformed tags: %v", p)
+		}
+	}()
+	return tag.ReadFrom(r)
+}
-- 
2.43.0


From 1a0fc36709633393dd446a3a7e9c3d716277b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:37 +0000
Subject: [PATCH 31/37] fix: songs with invalid UTF-8 in their tags or names
 are announced

---
 schedule/server_state.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index fce3cc9..edb9a4e 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -5,6 +5,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/metadata"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/timing"
+	"strings"
 	"sync"
 	"time"
 )
@@ -104,6 +105,11 @@ func toWireLyrics(lyrics []metadata.LyricsLine) []*comm.NewSongInfo_SongLyricsLi
 	return wireLyrics
 }
 
+// validUTF8 replaces invalid UTF-8 in s. Messages must not contain any, but tags and file names can.
+func validUTF8(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
+
 func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 	return func(startSampleIndex uint64, filename string, songLength int64) {
 		lyrics := ss.lyricsProvider.CollectLyrics(filename)
@@ -113,13 +119,13 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		newSong := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
-			SongFileName:           filename,
+			SongFileName:           validUTF8(filename),
 			SongLength:             songLength,
 			Lyrics:                 wireLyrics,
 			Metadata: &comm.NewSongInfo_SongMetadata{
-				Title:  md.Title,
-				Artist: md.Artist,
-				Album:  md.Album,
+				Title:  validUTF8(md.Title),
+				Artist: validUTF8(md.Artist),
+				Album:  validUTF8(md.Album),
 			},
 		}
 		ss.newestSongMutex.Lock()
-- 
2.43.0


From 1632e6287d7b9e5e360e7211b595cf765fcdf92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:36 +0000
Subject: [PATCH 32/37] fix: queue songs from a music directory whose name
 contains glob characters

---
 util/file_utils.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index 77f01ad..32d887b 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -68,9 +68,21 @@ func ListAllSubDirs(dir string) []string {
 	})
 }
 
+var globEscaper = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
+
+// escapeGlob escapes the characters of path with a special meaning in glob patterns
+func escapeGlob(path string) string {
+	if os.PathSeparator == '\\' {
+		// patterns cannot contain escapes on windows
+		return path
+	}
+	return globEscaper.Replace(path)
+}
+
 // ListGlobFiles lists all files in a directory matching the provided glob pattern
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(filepath.Join(dir, pattern))
+	// only pattern is a pattern, the name of dir can contain any characters
+	matches, err := filepath.Glob(filepath.Join(escapeGlob(dir), pattern))
 	if err != nil {
 		return []string{}, err
 	}
-- 
2.43.0


From 3da2dd3a42a9b58ce5a5e45aa7fcffb89b82fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:42 +0000
Subject: [PATCH 33/37] fix: the infoer shows wide and combining characters

---
 cmd/music-sync-infoer/drawing.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index ec9a856..52398b6 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/gdamore/tcell"
 	"math"
+	"unicode"
 )
 
 type drawer struct {
@@ -31,9 +32,22 @@ func (d *drawer) eventLoop() {
 	}
 }
 
+// drawString draws str in the cells from x, y on.
+// Wide characters take more than one cell, combining characters share the cell of the character they follow.
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
-	for i, r := range []rune(str) {
-		d.SetContent(x+i, y, r, nil, style)
+	width := 0
+	var char []rune
+	for _, r := range str {
+		if 0 < len(char) && unicode.In(r, unicode.Mn, unicode.Me) {
+			char = append(char, r)
+		} else {
+			x += width
+			char = []rune{r}
+		}
+		d.SetContent(x, y, char[0], char[1:], style)
+		if _, _, _, width = d.GetContent(x, y); width < 1 {
+			width = 1
+		}
 	}
 }
 
-- 
2.43.0


From 449aaa3c4c7a25c3c5a6530c498dca936f0e4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:46 +0000
Subject: [PATCH 34/37] fix: a directory that cannot be read hides no other
 songs

---
 util/file_utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index 32d887b..1ea0831 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -22,8 +22,9 @@ func FilterSongs(files []string) []string {
 func walker(root string, pathTransform func(string) string, pathFilter func(string, os.FileInfo) bool) []string {
 	walked := make([]string, 0)
 	filepath.Walk(root, func(path string, f os.FileInfo, err error) error {
-		if err != nil {
-			return err
+		if f == nil {
+			// files that cannot be accessed are skipped
+			return nil
 		}
 		path = pathTransform(path)
 		if pathFilter(path, f) {
-- 
2.43.0


From 07c92b704f5d39683d78726095d02d6fd47b6323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:49 +0000
Subject: [PATCH 35/37] fix: malformed songs do not crash the server

---
 playback/playback.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index e1e50d0..e2aee96 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/util"
+	"io"
 	"math"
 	"os"
 	"path"
@@ -39,13 +40,37 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 		return nil, fmt.Errorf("failed to open file %s: %v", filename, err)
 	}
 
-	s, _, err := mp3.Decode(f)
+	s, err := decode(f)
 	if err != nil {
 		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
 	}
 
-	return s, nil
+	return &songStreamer{s}, nil
+}
+
+// decode is mp3.Decode, but returns an error where that panics because of a malformed file.
+func decode(rc io.ReadCloser) (s beep.StreamSeekCloser, err error) {
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("malformed file: %v", p)
+		}
+	}()
+	s, _, err = mp3.Decode(rc)
+	return
+}
+
+// songStreamer streams a song and ends it where decoding it panics because of a malformed file.
+type songStreamer struct{ beep.StreamSeekCloser }
+
+func (s *songStreamer) Stream(samples [][2]float64) (n int, ok bool) {
+	defer func() {
+		if p := recover(); p != nil {
+			logger.Warnf("song ends early: malformed file: %v", p)
+			n, ok = 0, false
+		}
+	}()
+	return s.StreamSeekCloser.Stream(samples)
 }
 
 // QueueChunk queue a chunk for playback
-- 
2.43.0


From 743cc332d85fc7818de43e16277b166c2181d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:12 +0000
Subject: [PATCH 36/37] fix: completions ignore where the cursor is in the line

---
 ssh/auto_completer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index c261a8c..31d0ba3 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -9,6 +9,7 @@ type sshAutoCompleter struct{}
 
 func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
 	newLine = make([][]rune, 0)
+	line = line[:pos]
 
 	lastChar := '\x00'
 	if len(line) != 0 {
-- 
2.43.0


From 8045093e862bebbf9e5ebda5c1a8261f4f0667b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:17 +0000
Subject: [PATCH 37/37] fix: single keys of operators crash or stop the server

---
 ssh/key_guard.go       | 81 ++++++++++++++++++++++++++++++++++++++++++
 ssh/session_handler.go | 28 +++++++++++----
 2 files changed, 103 insertions(+), 6 deletions(-)
 create mode 100644 ssh/key_guard.go

diff --git a/ssh/key_guard.go b/ssh/key_guard.go
new file mode 100644
index 0000000..38da92a
--- /dev/null
+++ b/ssh/key_guard.go
@@ -0,0 +1,81 @@
+package ssh
+
+import (
+	"github.com/chzyer/readline"
+)
+
+// keyGuard keeps keys from readline on which it would panic, and take the server with it, or stop the server.
+// readline cannot transpose a single character or search before anything was typed, and while a completion is selected,
+// it cannot kill the line or move between the rows of a list that does not fit into the terminal.
+type keyGuard struct {
+	readline.AutoCompleter
+	width int
+
+	// offered tells whether completions are offered, tooWide whether their list does not fit into the terminal
+	offered, tooWide bool
+	// selecting tells whether one of the offered completions is selected
+	selecting bool
+	// used tells whether there have been any keys that readline puts into its history
+	used bool
+	// length is the length of the line
+	length int
+}
+
+// Do completes line and remembers what readline is going to offer.
+// readline only selects one of the completions when asked to complete a line without calling this.
+func (k *keyGuard) Do(line []rune, pos int) ([][]rune, int) {
+	completions, length := k.AutoCompleter.Do(line, pos)
+	k.selecting, k.tooWide = false, false
+	k.offered = 1 < len(completions)
+	if (readline.Runes{}).WidthAll(line[:pos]) != length {
+		// readline counts the columns of the line before the completions as characters
+		length = 0
+	}
+	for _, c := range completions {
+		if k.width-1 < (readline.Runes{}).WidthAll(c)+length+1 {
+			k.tooWide = true
+		}
+	}
+	return completions, length
+}
+
+// filter returns whether readline should handle the key r.
+func (k *keyGuard) filter(r rune) (rune, bool) {
+	switch r {
+	case readline.CharBckSearch, readline.CharFwdSearch:
+		k.offered, k.selecting = false, false
+		return r, k.used
+	case readline.CharTranspose:
+		if k.length == 1 {
+			return r, false
+		}
+	case readline.CharCtrlZ:
+		// readline would stop the server
+		return r, false
+	}
+	k.used = k.used || r != readline.CharInterrupt
+	switch r {
+	case readline.CharTab, readline.CharBackspace, readline.CharCtrlH:
+		k.selecting = k.offered
+	case readline.CharKill:
+		return r, !k.selecting
+	case readline.CharLineStart, readline.CharLineEnd, readline.CharNext, readline.CharPrev:
+		if k.selecting {
+			return r, !k.tooWide
+		}
+		k.offered = false
+	case readline.CharForward, readline.CharBackward:
+		k.offered = k.selecting
+	default:
+		k.offered, k.selecting = false, false
+	}
+	return r, true
+}
+
+// OnChange is told the line after each key that edits it.
+func (k *keyGuard) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
+	if key != 0 {
+		k.length = len(line)
+	}
+	return nil, 0, false
+}
diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 81ef71d..7aa8a2a 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -55,18 +55,34 @@ func (s *session) createEx() (err error) {
 	return
 }
 
+// columns returns the width of the terminal.
+// readline loops forever in terminals that are not wider than the prompt or do not tell their width.
+func (s *session) columns() int {
+	if s.width < 16 {
+		return 80
+	}
+	return s.width
+}
+
 func (s *session) createReadlineConfig() {
+	guard := &keyGuard{AutoCompleter: &sshAutoCompleter{}}
 	s.cfg = &readline.Config{
 		Prompt: "\033[31mmusic-sync»\033[0m ",
 
-		AutoComplete: &sshAutoCompleter{},
+		AutoComplete: guard,
 
 		VimMode: false,
 
 		InterruptPrompt: "^C",
 		EOFPrompt:       "exit",
 
-		FuncGetWidth: func() int { return s.width },
+		FuncGetWidth: func() int {
+			guard.width = s.columns()
+			return guard.width
+		},
+
+		FuncFilterInputRune: guard.filter,
+		Listener:            guard,
 
 		Stdin:       s,
 		Stdout:      s,
@@ -85,12 +101,12 @@ func (s *session) handleLine(line string) bool {
 	} else {
 		switch cmd.Command {
 		case "clear":
-			fmt.Fprint(s.ex, "\033[H")
+			fmt.Fprint(s, "\033[H")
 		case "exit":
 			logger.Infof("connection %s as %s closed", s.RemoteAddr(), s.User())
 			return false
 		default:
-			fmt.Fprintf(s.ex, "Unknown command '%s'. Type 'help' for help.\n", cmd.Command)
+			fmt.Fprintf(s, "Unknown command '%s'. Type 'help' for help.\n", cmd.Command)
 		}
 	}
 	return true
@@ -102,9 +118,9 @@ func (s *session) execCommand(c Command, args []string) {
 		if strings.HasSuffix(msg, "\n") {
 			msg = msg[:len(msg)-1]
 		}
-		fmt.Fprintln(s.ex, msg)
+		fmt.Fprintln(s, msg)
 	} else {
-		fmt.Fprintf(s.ex, "%s\n", c.usage())
+		fmt.Fprintf(s, "%s\n", c.usage())
 	}
 }
 
-- 
2.43.0

