#!/usr/bin/env python3
"""Writes known-findings.jsonl: defects of /repo that the checks found, all of them repaired."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("P05", "4731cab", "cmd:crash", "remove with an index equal to the number of songs panics and takes the server down"),
 ("P06", "d709b7e", "order", "a jump blocks its operator, interrupts the wrong song or panics, depending on where the playlist goroutine is"),
 ("P06", "93f9a91", "order", "the stream stops for good when no song of the playlist can be read"),
 ("P07", "81bf530", "pause", "the announced sample of a pause differs from the one at which the stream pauses"),
 ("P11", "1576eaa", "meta", "song announcements are lost when two songs begin within one chunk"),
 ("P09", "6e133f0", "crash", "malformed messages crash the receiving server or client"),
 ("P14", "4fdc9e6", "stream", "files of played songs are never closed (only the garbage collector does), so the server can run out of file descriptors"),
 ("P10", "e476d26", "order", "messages of one connection are handled in random order"),
 ("P09", "dcde429", "pace", "a client that stops reading blocks everybody else"),
 ("P14", "e1d10ad", "live", "a temporary accept error ends the acceptor, nobody can connect any more"),
 ("P14", "3aa6b1a", "pace", "the stream stays behind for good after the server was slow"),
 ("P11", "8226e8e", "meta:position", "clients that join late are told wrong pauses"),
 ("P08", "0b9d496", "volume:split", "clients are left with different volumes when operators or joining clients race"),
 ("P15", "59c44e7", "audio", "players cut off the beginning of songs"),
 ("P15", "39b418e", "audio", "the loudest positive samples wrap around to the most negative"),
 ("P08", "17f6102", "audio", "a starting player ignores the volume it is told"),
 ("P17", "f5d9202", "crash", "completing a line with extra spaces crashes the server"),
 ("P17", "6ff2e7c", "typing:answer", "songs cannot be queued with a music directory like ./audio"),
 ("P17", "bd268df", "typing:answer", "commands with non-ASCII characters are misunderstood"),
 ("P18", "d17d151", "exit", "the infoer crashes if it cannot connect"),
 ("P16", "2ddf212", "screen:wrong", "texts with non-ASCII characters are displayed with gaps"),
 ("P17", "a70d948", "typing:interrupted", "interrupting a line (Ctrl-C) executes it"),
 ("P18", "c375bc4", "exit:terminal", "the infoer leaves the terminal unusable when it loses its server"),
 ("P05", "b691927", "list", "songs queued by one command are torn apart or reversed by another command"),
 ("P05", "2ec3738", "list", "the playlist command shows songs and playback state of different moments"),
 ("P03", "c11d08e", "audio:time", "one delayed answer during the time synchronisation leaves a client out of time"),
 ("P08", "c2cc9ca", "volume:untold", "clients that connect while the server starts are never told its state"),
 ("P14", "5633f8d", "stream:order", "two chunks are sent in the wrong order when the server is suspended while it sends the first"),
 ("P19", "ac93268", "crash", "malformed tags of a song (a comment of two bytes, a picture type without end) crash the server"),
 ("P19", "1a0fc36", "song:unannounced", "songs with invalid UTF-8 in their tags (or names) are never announced"),
 ("P20", "1632e62", "conf:songs", "songs below a music directory whose name contains glob characters ('/srv/[best of] music') cannot be queued or completed"),
 ("P16", "3da2dd3", "screen:wrong", "wide characters overlap in the infoer, combining characters take a column of their own"),
 ("P17", "449aaa3", "typing:answer", "one directory that cannot be read hides all songs that follow it"),
 ("P06", "07c92b7", "crash", "malformed songs, on which the MP3 decoder panics, crash the server"),
 ("P17", "743cc33", "typing:answer", "completing a word in the middle of a line inserts what belongs to the end of the line"),
 ("P17", "8045093", "crash", "single keys (Ctrl-Z, Ctrl-T after one character, Ctrl-R and Ctrl-C in a new session, Ctrl-K or arrows in completions) stop or crash the server"),
 ("P20", "f8c3a43", "log", "logging flags of the single packages have no effect"),
]
with open(os.path.join(V, "known-findings.jsonl"), "w") as f:
    for p, c, cl, w in F:
        f.write(json.dumps({"property": p, "status": "fixed", "commit": c, "class": cl, "match": "", "what": w, "entry": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
