SCHED = "No test runs the server: the 108 tests call single functions with fixed inputs, in one goroutine, without a network; none covers an interleaving of reader, playlist, ticker and operator goroutines."

prop("P01", "The audio stream carries every song completely, in order and without gaps",
  "What a subscriber to the audio receives is one gapless sequence of chunks with consecutive numbers, sample positions and play times that advance exactly with the sample clock. In it every song that was announced appears at exactly the announced position, with every one of its samples exactly once and in order, interrupted only by announced pauses, and followed by exactly one break; everything else is silence. Every chunk is also announced once, with the same position, size and time.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every song set, sample rate, chunk and break size, every interleaving of the server's goroutines and bounded stalls of them, and every sequence of operator commands and of clients coming and going",
  SCHED + " Loss or duplication at buffer or chunk boundaries depends on how three goroutines interleave.",
  ["playback/streamer.go", "playback/playlist.go", "playback/timed_sample_queue.go", "schedule/server.go", "comm/package_util.go"],
  [("playlist goroutine fills a bounded sample buffer", "playback/playlist.go"), ("ticker goroutine reads chunks and sends them", "schedule/server.go")],
  ["messages received by a subscriber of the AUDIO and META channels"],
  "An observer connection decodes the stream sample by sample against unique sample values.")

prop("P05", "Concurrent playlist commands behave as if executed one after another",
  "The answers to queue, remove, jump, playlist, pause and resume commands that operators issue concurrently, together with the songs that are then streamed, are explained by executing the commands one after another in an order that respects real time. Commands with unusable positions change nothing and say so, and every command is answered.",
  ["schedules", "histories", "inputs"],
  "every history of overlapping commands from several operators, every position argument, and every interleaving with the playing server",
  SCHED + " Linearizability quantifies over all overlapping histories.",
  ["playback/playlist.go", "schedule/server_state_commands.go", "ssh/session_handler.go"],
  [("playlist mutex around the song list", "playback/playlist.go"), ("command functions", "schedule/server_state_commands.go")],
  ["operators' answers", "songs in the audio stream"],
  "Histories are judged by a linearizability search against a small playlist model that also has to explain the songs streamed.")

prop("P06", "Songs play in playlist order and jumps act at once",
  "The songs streamed are the ones the playlist holds, in its order, wrapping around at its end; songs that cannot be read are skipped, and a playlist without readable songs yields silence until it has one. A jump ends the current song (and only it) within the buffered second and continues at the requested song, also when it is made during a break, in quick succession, or on an empty playlist.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "every playlist with readable, truncated, empty, corrupt or unreadable songs, and every moment and sequence of jumps, insertions and removals",
  SCHED + " Which song a jump hits depends on the moment at which the playlist goroutine sees it.",
  ["playback/playlist.go", "playback/streamer.go", "schedule/server_state_commands.go"],
  [("playlist loop with interrupt of the current song", "playback/playlist.go")],
  ["songs and announcements in the audio stream", "operators' answers"],
  "The stream's songs are replayed by the playlist model, with operator commands placed anywhere within their call interval.")

prop("P07", "Pausing loses no audio and is announced exactly",
  "A pause inserts silence into the running song and resuming continues with the very next sample: nothing is lost, repeated or played out of order. Every toggle is announced with the exact sample position at which it happens, announcements alternate, and a pause or resume that was answered takes effect within the buffered second.",
  ["schedules", "histories"],
  "every sequence of pause and resume commands of several operators, at every moment relative to buffers, songs and breaks",
  SCHED + " The announced position is computed by one goroutine about a decision another one takes.",
  ["playback/playlist.go", "schedule/server_state.go"],
  [("playing flag and toggle callback", "playback/playlist.go"), ("pause announcements", "schedule/server_state.go")],
  ["silence in the audio stream", "pause announcements"],
  "Every silent stretch in the stream is compared with the announcements, and every command with its effect.")

prop("P02", "All players play every sample at the same scheduled time",
  "Wherever, whenever and with whatever clock a player runs, the sample its sound card plays at a moment is the one the stream schedules for that moment: the play time the server gave it, on the server's clock, plus the constant latency of the sound card's buffer. Hence all players play in unison, also those that join while songs play, and pauses, jumps and breaks happen everywhere at once.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "every schedule of the players' and the server's goroutines, every offset between the machines' clocks, every network delay within the configured delay, every join time, and every sequence of songs, pauses and jumps",
  SCHED + " No test runs a player against a server, and whether a sample is played in time is a matter of interleavings, clocks and network delays.",
  ["playback/playback.go", "schedule/player.go", "schedule/infoer.go", "timing/timing.go", "schedule/server.go"],
  [("scheduled play-out of received chunks", "playback/playback.go"), ("time sync and its averaged offset", "timing/timing.go"), ("start times of chunks", "schedule/server.go")],
  ["frames the simulated sound card makes audible, and when"],
  "Unique sample values identify the place in the stream of every frame a player's device plays; times are compared in true time.")

prop("P15", "A player plays the stream exactly, at the volume that was set",
  "What a player plays is the stream and nothing else: every sample exactly once, in order and without gaps from shortly after its connection on, both channels kept apart, scaled by the volume in effect and limited to the range of the output without wrapping around. Silence is played only where the stream is silent.",
  ["schedules", "inputs", "configurations"],
  "every song, including the most extreme samples, every volume and moment of changing it, every schedule of the player's goroutines, every chunk size and rate",
  SCHED + " The tests convert single samples; a buffer that is dropped, doubled or refilled late needs the right interleaving.",
  ["playback/playback.go", "playback/timed_sample_queue.go", "schedule/player.go", "comm/package_handler.go"],
  [("queue of samples between receiver and device goroutine", "playback/playback.go"), ("scaling, clamping and conversion of samples", "playback/playback.go")],
  ["frames written to the simulated sound card"],
  "Every audible frame must be the conversion of the next sample of the decoded stream by a volume that may be in effect.")

prop("P03", "Players absorb outages within the delay and recover from longer ones",
  "An interruption of the network or the server shorter than the configured delay is not heard. After any other disturbance of a player (suspended, delayed, restarted) or of the server it plays complete songs at their scheduled time again, at the latest after the song that the disturbance hit, and other players do not hear it at all.",
  ["schedules", "fault_sequences"],
  "every sequence and length of network outages, delays, suspensions and restarts, at every moment of songs, breaks and pauses",
  SCHED + " Recovery is about what happens after a fault; no test injects one.",
  ["playback/playback.go", "schedule/player.go", "schedule/server.go", "comm/message_sender.go"],
  [("delay by which chunks are sent ahead", "schedule/server.go"), ("skipping of late samples at breaks", "playback/playback.go")],
  ["frames the sound cards play after faults"],
  "Faults are injected into the simulated network and processes; what the cards play afterwards is compared with the stream.")

prop("P04", "Players stay in time although clocks drift or are set",
  "While clocks of server and players run at different speeds, or are set to another time of day, players stay within what one synchronisation interval of drift plus one song allows, for as long as they run; setting a machine's time of day has no effect at all.",
  ["fault_sequences", "configurations", "schedules"],
  "every drift of the machines' clocks up to 300 ppm, every jump of their wall clocks, every uptime, and runs of many synchronisation intervals",
  "The tests of timing check the arithmetic of single updates with made-up numbers; drift matters over many minutes and repeated exchanges with a server.",
  ["timing/timing.go", "schedule/infoer.go", "schedule/server.go", "playback/playback.go"],
  [("periodic time sync and the averaged offset", "timing/timing.go"), ("correction of the position at breaks", "playback/playback.go")],
  ["frames the sound cards play, in true time"],
  "Machines have clocks with seeded offsets and drifts; minutes of simulated time are played.")


prop("P08", "Every client knows the volume that is in effect",
  "After each successful volume command every subscriber (player, infoer, or any other) is told the new volume, and a client that subscribes is told the current one, so that whenever no change is under way all of them have last been told the same volume: the one the latest command set. A command with an unusable argument changes nothing and says so; nobody is ever told a volume that was not set.",
  ["schedules", "histories", "inputs"],
  "every history of overlapping volume commands of several operators, every moment at which clients subscribe or leave relative to them, and every interleaving",
  SCHED + " A client that subscribes while the volume is being set, or two operators who set it at once, decide this property.",
  ["schedule/server_state.go", "schedule/server_state_commands.go", "schedule/server.go", "comm/message_sender.go"],
  [("volume command and its broadcast", "schedule/server_state_commands.go"), ("state told to new subscribers", "schedule/server.go")],
  ["volume messages received by every connection", "the infoer's volume display", "operators' answers"],
  "The volume last received by each connection is compared with the linearised command history at every quiet moment.")

prop("P09", "A misbehaving client harms nobody else",
  "Whatever one client sends (garbage, truncated, oversized, unknown or misplaced messages, floods of requests) or fails to do (stops reading, vanishes, half-closes, resets its connection), the server keeps running and everyone else is served as if that client did not exist: the stream goes on in time, well-behaved clients get every message they subscribed to and their answers, players keep playing, operators' commands are answered, and new clients can connect.",
  ["inputs", "fault_sequences", "schedules"],
  "every sequence of bytes and every behaviour of up to four hostile or broken clients at every moment, every window size, and every interleaving with the server",
  SCHED + " The tests send well-formed messages over in-memory buffers and never stop reading.",
  ["comm/conn_handler.go", "comm/message_sender.go", "comm/package_util.go", "comm/package_handler.go", "schedule/server.go"],
  [("receiver of each connection", "comm/conn_handler.go"), ("multi-client sender", "comm/message_sender.go")],
  ["messages received by other clients", "what players play", "operators' answers", "server process"],
  "Hostile clients act next to an observer, a well-behaved client, a player and operators, all of whom are judged as if nothing happened.")

prop("P10", "Messages arrive intact, in order, and every request is answered once",
  "However the network cuts, coalesces and delays the bytes, and however many goroutines send to a connection at once, each connection carries a sequence of complete, intact messages; each is handled in the order in which it was sent. Every ping is answered by exactly one pong and every time sync request by exactly one answer that carries the request's send time and the server's receive and send times, in the order of the requests.",
  ["schedules", "inputs", "configurations"],
  "every segmentation and coalescing of the byte stream, every window size, every message size, every set of concurrent senders and requests",
  SCHED + " The tests of comm read whole messages from a buffer; interleaved writes and partial reads need a network and several writers.",
  ["comm/package_util.go", "comm/message_sender.go", "comm/conn_handler.go", "comm/package_handler.go", "schedule/server.go"],
  [("length-prefixed, compressed framing", "comm/package_util.go"), ("per-connection locking of senders", "comm/message_sender.go")],
  ["bytes and messages received by every connection", "what a player on the same network plays"],
  "Every byte received is decoded by an independent decoder and compared with what must have been sent.")

prop("P11", "What is announced tells every subscriber what is playing, whenever it joined",
  "From the announcements of songs, pauses and chunks that a metadata subscriber has been sent by the time a sample is due, it can tell for every sample from the newest song at its joining on: which song it belongs to, how far into the song it is (not counting pauses), and whether the music is paused there. These agree with the audio that is actually streamed, for subscribers that were there from the start as for those that joined in the middle of a song, a pause or a break.",
  ["schedules", "histories", "fault_sequences"],
  "every moment of joining relative to songs, pauses, breaks and jumps, every sequence of operator commands, and every interleaving",
  SCHED + " The state replayed to a late subscriber is collected by one goroutine while another plays on.",
  ["schedule/server_state.go", "schedule/server.go", "playback/streamer.go", "playback/playlist.go", "schedule/infoer.go"],
  [("recent announcements kept for late subscribers", "schedule/server_state.go"), ("song and pause announcements", "schedule/server.go")],
  ["announcements received by metadata subscribers", "samples of the audio stream"],
  "Each subscriber's announcements are replayed and compared with the decoded audio at many positions.")

prop("P12", "Subscribers get exactly what they subscribed to",
  "A connection that subscribed to the audio receives every chunk from its subscription on, exactly once and in order; one that subscribed to the metadata receives every announcement; one that did not subscribe to a channel receives nothing of it, and nothing is sent twice to a connection that subscribed twice. Subscribing, leaving (in any way) and resubscribing of one client never changes what others receive, and the server drops no connection that behaves.",
  ["schedules", "histories"],
  "every sequence of connecting, subscribing to any channels, requesting, leaving and coming back of several clients at every moment, and every interleaving with the sender",
  SCHED + " The tests register one connection and send one message.",
  ["comm/message_sender.go", "comm/conn_handler.go", "comm/package_handler.go", "schedule/server.go"],
  [("subscriber lists", "comm/message_sender.go"), ("subscription requests", "schedule/server.go")],
  ["messages received by every connection"],
  "Each connection's messages are compared with its subscriptions and with an observer that was there all the time.")

prop("P13", "Exactly the operators in the users file get in",
  "A user can log in over SSH exactly if the users file lists that name with that password or that public key; no other name, password, key or method is accepted, at any time and however many try at once, and nothing that an unauthenticated connection sends is executed. If the users file cannot be used (missing, malformed, truncated, unreadable) nobody gets in; the server otherwise runs on and says so.",
  ["inputs", "configurations", "fault_sequences", "schedules"],
  "every users file, including malformed, torn and unreadable ones, every combination of user names, passwords, keys and methods, and every concurrency of attempts",
  "The tests authenticate against two or three fixed users with an in-memory map; none reads a damaged file, mixes methods or runs attempts concurrently.",
  ["ssh/options.go", "ssh/ssh.go", "schedule/server.go", "cmd/music-sync-server/main.go"],
  [("users file and the authentication callbacks", "ssh/ssh.go, ssh/options.go"), ("start of the SSH server", "schedule/server.go")],
  ["outcome of every login attempt", "effects of commands", "exit status of the server"],
  "The SSH transport is a stub that calls the real authentication and session callbacks.")

prop("P14", "The server plays on at its pace after any trouble",
  "The server streams in real time for as long as it runs: a suspended or slow machine, slow or failing disk reads, failing accepts, exhausted file descriptors, crowds of clients and a wall clock that is set at most delay it while they last. Shortly after the last of them the stream is in step with the clock again, no song has lost a sample, and clients and operators are served as before. It does so for any number of songs, without using up the files it may open.",
  ["fault_sequences", "schedules", "configurations"],
  "every sequence of process suspensions, disk delays and errors, accept errors, file descriptor exhaustion and wall clock jumps, and runs over many songs",
  SCHED + " Nothing in them fails, takes time or runs out.",
  ["schedule/server.go", "playback/playlist.go", "playback/streamer.go", "comm/conn_handler.go", "comm/message_sender.go"],
  [("ticker that paces the stream and catches up", "schedule/server.go"), ("acceptor", "comm/conn_handler.go"), ("playlist loop", "playback/playlist.go")],
  ["time and content of the audio stream", "answers to clients and operators that come after the trouble"],
  "Liveness is checked as progress within a bounded time once faults stop.")

prop("P16", "The infoer shows what is playing now",
  "At every moment at which an infoer draws, its screen shows the title, artist and album of the song whose sample is due at that moment on the server's schedule, the time into it and its length, the matching progress bar, the current volume, whether the music is paused, and the lyrics: the line being sung, as far as it has been sung, with the lines before it above. It goes on updating, on terminals of any size.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every song with any tags and lyrics, every terminal size and resize, every offset between clocks, every time of joining, and every sequence of pauses and jumps",
  "No test runs the infoer; what it shows depends on several goroutines, a synchronised clock and announcements that arrive ahead of time.",
  ["schedule/infoer.go", "cmd/music-sync-infoer/drawing.go", "timing/timing.go", "cmd/music-sync-infoer/main.go"],
  [("drawing loop", "cmd/music-sync-infoer/main.go"), ("announcements kept until they are due", "schedule/infoer.go"), ("synchronised clock", "timing/timing.go")],
  ["cells of the simulated terminal at every update"],
  "Every screen is compared with what a reference computes from the decoded stream and the song files.")

prop("P17", "The operators' command line does what was typed",
  "Every line an operator enters executes the command with the arguments that the line quotes and escapes, for song names with any characters, and gets its answer; files and directories that cannot be read hide no other songs; a completed word executes as the song or command it names; an interrupted line is not executed. Whatever one operator types or sends, and however the terminal behaves, no other operator, client or song is affected and the server runs on.",
  ["inputs", "schedules", "fault_sequences"],
  "every sequence of key strokes and bytes, every song name, every terminal size, sessions that never read or vanish in the middle of a line, and every interleaving with other sessions",
  "The tests parse and complete a fixed list of lines without a session; no test runs a session, let alone several.",
  ["ssh/session_handler.go", "ssh/parser/parser.go", "ssh/auto_completer.go", "schedule/server_state_commands.go"],
  [("session loop", "ssh/session_handler.go"), ("command parser", "ssh/parser/parser.go"), ("completion", "ssh/auto_completer.go")],
  ["answers and effects of typed lines", "streams and answers of everybody else"],
  "Keys are typed into the real line editor, without its terminal and goroutines, with the real completer, parser and commands behind it.")

prop("P18", "Every program ends when it should, and only then",
  "A player or infoer that cannot start (no server, sound card or terminal) or whose server is gone ends soon, with an error status, leaving the terminal usable; a server that is interrupted shuts down soon and cleanly and its clients notice; an interrupted player or infoer ends soon. Nothing else ends a program: not the coming and going of others, and not the end of the playlist.",
  ["fault_sequences", "schedules", "configurations"],
  "every order and moment of starting, interrupting, killing and restarting server, players and infoers, connection resets, and missing devices",
  "No test starts a program.",
  ["cmd/music-sync-server/main.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/main.go", "schedule/server.go", "schedule/player.go", "schedule/infoer.go", "comm/conn_handler.go"],
  [("main functions", "cmd/music-sync-*/main.go"), ("connection close handling", "comm/conn_handler.go")],
  ["exit time and status of every process"],
  "Processes, signals and exit codes are simulated; the main programs are the real ones.")

prop("P19", "Announced songs carry the contents of their tag and lyrics files",
  "The announcement of a song carries the title, artist and album in the song's tags and the lyrics and further fields of the lyrics file beside it, exactly, for every song in the music directory and below. A missing, malformed or unreadable file only leaves out what it would have provided: the song is played and announced all the same, and neither it nor a slow read disturbs the stream or the announcements of other songs.",
  ["inputs", "fault_sequences", "schedules"],
  "every set of tags and lyrics files, well-formed or not, every failing, short or slow read of them, and every interleaving with the stream",
  "The tests read three sample files from disk; none fails, none is read while songs play.",
  ["metadata/metadata_provider.go", "metadata/lyrics_provider.go", "schedule/server.go", "playback/playlist.go"],
  [("metadata providers", "metadata"), ("announcement of a song with its metadata", "schedule/server.go")],
  ["song announcements received by metadata subscribers"],
  "Every announcement is compared with the generated files.")

prop("P20", "Every command line option does what it says",
  "Each option of the server, player and infoer, under its name or alias, has the documented effect on the running system and no other, with its documented default when it is left out: the addresses listened on and connected to, the users file, host key and music directory, the rate, chunk size, delay and gaps of the stream, the player's device, the infoer's lyrics history, and for each package which log lines are written, in which form and where. Options that cannot be understood, help and version end the program at once with the right status and no side effect.",
  ["configurations", "schedules"],
  "every combination of options of the three programs, in any order and under any alias, with valid and invalid values, whichever of the machine's addresses they name",
  "No test starts a program with options, and an option that is read but never applied changes nothing a test sees.",
  ["cmd/music-sync-server/main.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/main.go", "cmd/flags.go", "logging/logger.go", "logging/cutoff.go", "schedule/server.go", "ssh/ssh.go"],
  [("flag definitions and main functions", "cmd"), ("logging configuration", "logging"), ("setters for the stream's parameters", "schedule/server.go")],
  ["listeners, stream, screens, log lines and exit status of the programs"],
  "Programs are started with generated argument lists in simulated processes and observed from outside.")
