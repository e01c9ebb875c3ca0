From e33a1a25af063171bd96451ca1d1837389fcdd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 01/16] fix: rfc3164: always report an error when the input is
 rejected

The parser returned a nil message and a nil error (or, in best effort mode, a
partial message and a nil error) whenever the automaton stopped in a state
without a dedicated error action.
---
 rfc3164/machine.go    | 4 ++++
 rfc3164/machine.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 6dd3d29..0cebff7 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -7252,6 +7252,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			// No specific error has been detected where the parsing stopped
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 4d13817..aacdb0d 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -251,6 +251,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	%% write exec;
 
 	if m.cs < first_final || m.cs == en_fail {
+		if m.err == nil {
+			// No specific error has been detected where the parsing stopped
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
-- 
2.43.0


From a6d029d5cd1a92a33130c3c46d30721a194dd4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 02/16] fix: rfc3164: no best effort message out of an
 incomplete or out of range PRI

Inputs like '<192>' or '<13' produced a partial message whose priority (19, 1)
is not in the input; a partial message needs a complete PRI part.
---
 rfc3164/machine.go    | 6 ++++++
 rfc3164/machine.go.rl | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 0cebff7..82a974c 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -871,6 +871,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	tr0:
 
 		m.err = fmt.Errorf(errPri, m.p)
+		output.prioritySet = false
 		(m.p)--
 
 		{
@@ -881,6 +882,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	tr2:
 
 		m.err = fmt.Errorf(errPrival, m.p)
+		output.prioritySet = false
 		(m.p)--
 
 		{
@@ -888,6 +890,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		m.err = fmt.Errorf(errPri, m.p)
+		output.prioritySet = false
 		(m.p)--
 
 		{
@@ -7185,6 +7188,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			case 1:
 
 				m.err = fmt.Errorf(errPri, m.p)
+				output.prioritySet = false
 				(m.p)--
 
 				{
@@ -7230,6 +7234,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			case 2, 3, 330, 331, 332:
 
 				m.err = fmt.Errorf(errPrival, m.p)
+				output.prioritySet = false
 				(m.p)--
 
 				{
@@ -7237,6 +7242,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				}
 
 				m.err = fmt.Errorf(errPri, m.p)
+				output.prioritySet = false
 				(m.p)--
 
 				{
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index aacdb0d..ba91ecb 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -83,12 +83,14 @@ action set_message {
 
 action err_prival {
 	m.err = fmt.Errorf(errPrival, m.p)
+	output.prioritySet = false
 	fhold;
 	fgoto fail;
 }
 
 action err_pri {
 	m.err = fmt.Errorf(errPri, m.p)
+	output.prioritySet = false
 	fhold;
 	fgoto fail;
 }
-- 
2.43.0


From 3030f335f532954dedf68d40346f9a610e4274b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 03/16] fix: common: EscapeBytes must not corrupt multi-byte
 characters

It appended only the first byte of every multi-byte character (re-encoded as
UTF-8), so that structured data values with non-ASCII characters did not
survive String().
---
 common/functions.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ce2880c..9a74d73 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -30,12 +30,13 @@ func RemoveBytes(data []byte, positions []int, offset int) []byte {
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
 	res := ""
-	for i, c := range value {
+	for i := 0; i < len(value); i++ {
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
-		if c == 92 || c == 93 || c == 34 {
+		if c := value[i]; c == 92 || c == 93 || c == 34 {
 			res += `\`
 		}
-		res += string(value[i])
+		// Copy the byte as is, it could be part of a multi-byte character
+		res += value[i : i+1]
 	}
 
 	return res
-- 
2.43.0


From 8f87ee4af34cc6e4d042213d88e054ce6cf3e570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 04/16] fix: rfc5424: builders must not share state through
 package variables

SetParameter passed the element id and the parameter name to the FSM through
package variables: concurrent builders raced on them and could write their
values into the wrong parameter, or panic on a missing element.
---
 rfc5424/builder.go    | 30 ++++++++++++++----------------
 rfc5424/builder.go.rl | 30 ++++++++++++++----------------
 2 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 4aa3baa..7360c0f 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -61,10 +61,10 @@ func (e entrypoint) translate() int {
 	}
 }
 
-var currentid string
-var currentparamname string
-
-func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+// set feeds the FSM entry point from with the given value.
+//
+// The element id and the parameter name are relevant only for the structured data parameters entry points.
+func (sm *SyslogMessage) set(from entrypoint, value, currentid, currentparamname string) *SyslogMessage {
 	data := []byte(value)
 	p := 0
 	pb := 0
@@ -9288,34 +9288,34 @@ func (sm *SyslogMessage) SetVersion(value uint16) Builder {
 
 // SetTimestamp set the timestamp value.
 func (sm *SyslogMessage) SetTimestamp(value string) Builder {
-	return sm.set(timestamp, value)
+	return sm.set(timestamp, value, "", "")
 }
 
 // SetHostname set the hostname value.
 func (sm *SyslogMessage) SetHostname(value string) Builder {
-	return sm.set(hostname, value)
+	return sm.set(hostname, value, "", "")
 }
 
 // SetAppname set the appname value.
 func (sm *SyslogMessage) SetAppname(value string) Builder {
-	return sm.set(appname, value)
+	return sm.set(appname, value, "", "")
 }
 
 // SetProcID set the procid value.
 func (sm *SyslogMessage) SetProcID(value string) Builder {
-	return sm.set(procid, value)
+	return sm.set(procid, value, "", "")
 }
 
 // SetMsgID set the msgid value.
 func (sm *SyslogMessage) SetMsgID(value string) Builder {
-	return sm.set(msgid, value)
+	return sm.set(msgid, value, "", "")
 }
 
 // SetElementID set a structured data id.
 //
 // When the provided id already exists the operation is discarded.
 func (sm *SyslogMessage) SetElementID(value string) Builder {
-	return sm.set(sdid, value)
+	return sm.set(sdid, value, "", "")
 }
 
 // SetParameter set a structured data parameter belonging to the given element.
@@ -9324,18 +9324,16 @@ func (sm *SyslogMessage) SetElementID(value string) Builder {
 // When a parameter with the given name already exists for the given element the operation is discarded.
 func (sm *SyslogMessage) SetParameter(id string, name string, value string) Builder {
 	// Create an element with the given id (or re-use the existing one)
-	sm.set(sdid, id)
+	sm.set(sdid, id, "", "")
 
 	// We can create parameter iff the given element id exists
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
-			currentid = id
-			sm.set(sdpn, name)
+			sm.set(sdpn, name, id, "")
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
-				currentparamname = name
-				sm.set(sdpv, value)
+				sm.set(sdpv, value, id, name)
 			}
 		}
 	}
@@ -9345,7 +9343,7 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 
 // SetMessage set the message value.
 func (sm *SyslogMessage) SetMessage(value string) Builder {
-	return sm.set(msg, value)
+	return sm.set(msg, value, "", "")
 }
 
 func (sm *SyslogMessage) String() (string, error) {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3eaccf2..1762180 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -151,10 +151,10 @@ func (e entrypoint) translate() int {
     }
 }
 
-var currentid string
-var currentparamname string
-
-func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+// set feeds the FSM entry point from with the given value.
+//
+// The element id and the parameter name are relevant only for the structured data parameters entry points.
+func (sm *SyslogMessage) set(from entrypoint, value, currentid, currentparamname string) *SyslogMessage {
     data := []byte(value)
     p := 0
     pb := 0
@@ -191,34 +191,34 @@ func (sm *SyslogMessage) SetVersion(value uint16) Builder {
 
 // SetTimestamp set the timestamp value.
 func (sm *SyslogMessage) SetTimestamp(value string) Builder {
-    return sm.set(timestamp, value)
+    return sm.set(timestamp, value, "", "")
 }
 
 // SetHostname set the hostname value.
 func (sm *SyslogMessage) SetHostname(value string) Builder {
-    return sm.set(hostname, value)
+    return sm.set(hostname, value, "", "")
 }
 
 // SetAppname set the appname value.
 func (sm *SyslogMessage) SetAppname(value string) Builder {
-    return sm.set(appname, value)
+    return sm.set(appname, value, "", "")
 }
 
 // SetProcID set the procid value.
 func (sm *SyslogMessage) SetProcID(value string) Builder {
-    return sm.set(procid, value)
+    return sm.set(procid, value, "", "")
 }
 
 // SetMsgID set the msgid value.
 func (sm *SyslogMessage) SetMsgID(value string) Builder {
-    return sm.set(msgid, value)
+    return sm.set(msgid, value, "", "")
 }
 
 // SetElementID set a structured data id.
 //
 // When the provided id already exists the operation is discarded.
 func (sm *SyslogMessage) SetElementID(value string) Builder {
-    return sm.set(sdid, value)
+    return sm.set(sdid, value, "", "")
 }
 
 // SetParameter set a structured data parameter belonging to the given element.
@@ -227,18 +227,16 @@ func (sm *SyslogMessage) SetElementID(value string) Builder {
 // When a parameter with the given name already exists for the given element the operation is discarded.
 func (sm *SyslogMessage) SetParameter(id string, name string, value string) Builder {
     // Create an element with the given id (or re-use the existing one)
-    sm.set(sdid, id)
+    sm.set(sdid, id, "", "")
 
     // We can create parameter iff the given element id exists
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
-            currentid = id
-            sm.set(sdpn, name)
+            sm.set(sdpn, name, id, "")
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-                currentparamname = name
-                sm.set(sdpv, value)
+                sm.set(sdpv, value, id, name)
             }
         }
     }
@@ -248,7 +246,7 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 
 // SetMessage set the message value.
 func (sm *SyslogMessage) SetMessage(value string) Builder {
-    return sm.set(msg, value)
+    return sm.set(msg, value, "", "")
 }
 
 func (sm *SyslogMessage) String() (string, error) {
-- 
2.43.0


From f89b290afa42b4cdcfe8b5a5376e5df0c04e93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 05/16] fix: rfc5424: SetParameter discards the operation on an
 existing parameter

As documented. It overwrote the existing value, or emptied it when the new
value was not valid.
---
 rfc5424/builder.go    | 4 ++++
 rfc5424/builder.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 7360c0f..71b97c3 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9330,6 +9330,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
+			// Discard the operation when the parameter already exists
+			if _, exists := elements[id][name]; exists {
+				return sm
+			}
 			sm.set(sdpn, name, id, "")
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 1762180..612f321 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -233,6 +233,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
+            // Discard the operation when the parameter already exists
+            if _, exists := elements[id][name]; exists {
+                return sm
+            }
             sm.set(sdpn, name, id, "")
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-- 
2.43.0


From 96eef177df180dd20cd7afb113a697e7797d8f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 06/16] fix: rfc5424: SetParameter ignores parameters with an
 invalid value

The builder ignores values that do not match the grammar, but a rejected
parameter value left a parameter with an empty value behind.
---
 rfc5424/builder.go    | 4 ++++
 rfc5424/builder.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 71b97c3..3917607 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9338,6 +9338,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
 				sm.set(sdpv, value, id, name)
+				// Discard the parameter when its value has not been accepted
+				if value != "" && elements[id][name] == "" {
+					delete(elements[id], name)
+				}
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 612f321..a47c35e 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -241,6 +241,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
                 sm.set(sdpv, value, id, name)
+                // Discard the parameter when its value has not been accepted
+                if value != "" && elements[id][name] == "" {
+                    delete(elements[id], name)
+                }
             }
         }
     }
-- 
2.43.0


From d0e712cbd994a57427b5d37ed77be2dae277cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 07/16] fix: octetcounting: MSGLEN is made of decimal digits
 and does not start with zero

The slash was taken for a digit, and the zero for a nonzero digit.
---
 octetcounting/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 7e5f2bb..4f01450 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -18,12 +18,12 @@ var lt = byte(60)
 
 // isDigit returns true if the byte represents a number in [0,9]
 func isDigit(ch byte) bool {
-	return (ch >= 47 && ch <= 57)
+	return (ch >= 48 && ch <= 57)
 }
 
 // isNonZeroDigit returns true if the byte represents a number in ]0,9]
 func isNonZeroDigit(ch byte) bool {
-	return (ch >= 48 && ch <= 57)
+	return (ch >= 49 && ch <= 57)
 }
 
 // Scanner represents the lexical scanner for octet counting transport.
-- 
2.43.0


From 10eba5d46af6f5ead5e154f70ed2c9b50d9f898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 08/16] fix: octetcounting: message lengths over MaxInt64 are
 too long as well

They became negative when converted to int, and passed the check.
---
 octetcounting/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index cbdbaac..a17866b 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -86,7 +86,7 @@ func (p *parser) run() {
 			break
 		}
 
-		if int(p.s.msglen) > p.maxMessageLength {
+		if p.maxMessageLength < 0 || p.s.msglen > uint64(p.maxMessageLength) {
 			p.emit(&syslog.Result{
 				Error: fmt.Errorf("message too long to parse. was size %d, max length %d", p.s.msglen, p.maxMessageLength),
 			})
-- 
2.43.0


From 6580d8cd73841fbaf5556ec31937749d9c19cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 09/16] fix: octetcounting: report the announced length in the
 error

When digits follow the separator the error reported those as expected length.
---
 octetcounting/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index a17866b..3289608 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -101,11 +101,14 @@ func (p *parser) run() {
 			break
 		}
 
+		// Scanning a further MSGLEN would overwrite the current one
+		msglen := p.s.msglen
+
 		// Next we MUST see a SYSLOGMSG with length equal to MSGLEN
 		if tok = p.scan(); tok.typ != SYSLOGMSG {
-			e := fmt.Errorf(`found %s after "%s", expecting a %s containing %d octets`, tok, tok.lit, SYSLOGMSG, p.s.msglen)
+			e := fmt.Errorf(`found %s after "%s", expecting a %s containing %d octets`, tok, tok.lit, SYSLOGMSG, msglen)
 			// Underflow case
-			if len(tok.lit) < int(p.s.msglen) && p.bestEffort {
+			if len(tok.lit) < int(msglen) && p.bestEffort {
 				// Though MSGLEN was not respected, we try to parse the existing SYSLOGMSG as a RFC5424 syslog message
 				result := p.parse(tok.lit)
 				if result.Error == nil {
-- 
2.43.0


From 6c05387e8248e169b2c322d7e60fe47a4e6f4ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 10/16] fix: octetcounting: a NUL byte is not the end of the
 stream

A NUL byte between two frames silently ended the parsing, ignoring the rest of
the stream; now it is reported as any other illegal byte.
---
 octetcounting/scanner.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 4f01450..6556332 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -7,9 +7,6 @@ import (
 	"strconv"
 )
 
-// eof represents a marker byte for the end of the reader
-var eof = byte(0)
-
 // ws represents the whitespace
 var ws = byte(32)
 
@@ -41,13 +38,13 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns the byte(0) if an error occurs (or io.EOF is returned)
-func (s *Scanner) read() byte {
+// it returns false if an error occurs (or io.EOF is returned)
+func (s *Scanner) read() (byte, bool) {
 	b, err := s.r.ReadByte()
 	if err != nil {
-		return eof
+		return 0, false
 	}
-	return b
+	return b, true
 }
 
 // unread places the previously read byte back on the reader
@@ -58,7 +55,13 @@ func (s *Scanner) unread() {
 // Scan returns the next token.
 func (s *Scanner) Scan() (tok Token) {
 	// Read the next byte.
-	b := s.read()
+	b, ok := s.read()
+	if !ok {
+		s.ready = false
+		return Token{
+			typ: EOF,
+		}
+	}
 
 	if isNonZeroDigit(b) {
 		s.unread()
@@ -68,11 +71,6 @@ func (s *Scanner) Scan() (tok Token) {
 
 	// Otherwise read the individual character
 	switch b {
-	case eof:
-		s.ready = false
-		return Token{
-			typ: EOF,
-		}
 	case ws:
 		s.ready = true
 		return Token{
@@ -95,12 +93,13 @@ func (s *Scanner) Scan() (tok Token) {
 func (s *Scanner) scanMsgLen() Token {
 	// Create a buffer and read the current character into it
 	var buf bytes.Buffer
-	buf.WriteByte(s.read())
+	b, _ := s.read()
+	buf.WriteByte(b)
 
 	// Read every subsequent digit character into the buffer
 	// Non-digit characters and EOF will cause the loop to exit
 	for {
-		if b := s.read(); b == eof {
+		if b, ok := s.read(); !ok {
 			break
 		} else if !isDigit(b) {
 			s.unread()
-- 
2.43.0


From 5ae55b3a5c0c64394661f66f924fe6836d211857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 11/16] fix: nontransparent: start every Parse call afresh

The last message of a stream, and its trailing chunk, were emitted again when
the same parser was used for another stream.
---
 nontransparent/parser.go    | 5 +++++
 nontransparent/parser.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index c587202..8963d4c 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -255,6 +255,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+	// Forget everything about previously parsed streams
+	m.candidate = nil
+	m.readError = nil
+	m.lastChunk = nil
+
 	r := parser.ArbitraryReader(reader, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 1dde434..e5dc853 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -146,6 +146,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+    // Forget everything about previously parsed streams
+    m.candidate = nil
+    m.readError = nil
+    m.lastChunk = nil
+
     r := parser.ArbitraryReader(reader, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
-- 
2.43.0


From a6f787aa68c9ecc068a3f818eb13b9e172c08026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 12/16] fix: rfc5424: best effort keeps the structured data
 completed before the error

An error at the very beginning of an element (eg., '[a x="1"][]') removed the
previous, complete element, and an error at the beginning of a parameter (eg.,
'[a x="1" =') removed the previous, complete parameter.
---
 rfc5424/machine.go    | 31 ++++++++++++++++++++++++++-----
 rfc5424/machine.go.rl | 12 ++++++++++--
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index ddd4a7c..8431c9e 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -1535,7 +1535,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st0
 	tr36:
 
-		delete(output.structuredData, m.currentelem)
+		if string(m.text()) == m.currentelem {
+			// Remove the element whose id is invalid, not the previous (complete) ones
+			delete(output.structuredData, m.currentelem)
+		}
 		if len(output.structuredData) == 0 {
 			output.hasElements = false
 		}
@@ -1571,7 +1574,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
-		delete(output.structuredData, m.currentelem)
+		if string(m.text()) == m.currentelem {
+			// Remove the element whose id is invalid, not the previous (complete) ones
+			delete(output.structuredData, m.currentelem)
+		}
 		if len(output.structuredData) == 0 {
 			output.hasElements = false
 		}
@@ -2040,6 +2046,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		// The previous parameter (if any) is complete from now on
+		m.currentparam = ""
+
+		goto st19
+	tr91:
+
+		// The previous parameter (if any) is complete from now on
+		m.currentparam = ""
+
 		goto st19
 	st19:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2846,7 +2861,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase55:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto st19
+			goto tr91
 		case 93:
 			goto st606
 		}
@@ -11879,7 +11894,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 			case 17:
 
-				delete(output.structuredData, m.currentelem)
+				if string(m.text()) == m.currentelem {
+					// Remove the element whose id is invalid, not the previous (complete) ones
+					delete(output.structuredData, m.currentelem)
+				}
 				if len(output.structuredData) == 0 {
 					output.hasElements = false
 				}
@@ -11941,7 +11959,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					m.currentelem = id
 				}
 
-				delete(output.structuredData, m.currentelem)
+				if string(m.text()) == m.currentelem {
+					// Remove the element whose id is invalid, not the previous (complete) ones
+					delete(output.structuredData, m.currentelem)
+				}
 				if len(output.structuredData) == 0 {
 					output.hasElements = false
 				}
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index f0b9c82..b2382c3 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -155,6 +155,11 @@ action set_paramvalue {
 	}
 }
 
+action end_sdparam {
+	// The previous parameter (if any) is complete from now on
+	m.currentparam = ""
+}
+
 action set_msg {
 	output.message = string(m.text())
 }
@@ -214,7 +219,10 @@ action err_structureddata {
 }
 
 action err_sdid {
-	delete(output.structuredData, m.currentelem)
+	if string(m.text()) == m.currentelem {
+		// Remove the element whose id is invalid, not the previous (complete) ones
+		delete(output.structuredData, m.currentelem)
+	}
 	if len(output.structuredData) == 0 {
 		output.hasElements = false
 	}
@@ -294,7 +302,7 @@ sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam $err(err_sdparam);
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
 sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
 
-sdelement = ('[' sdid (sp sdparam)* ']');
+sdelement = ('[' sdid (sp @end_sdparam sdparam)* ']');
 
 structureddata = nilvalue | sdelement+ >ini_elements $err(err_structureddata);
 
-- 
2.43.0


From 0f5e7eb89bbdc374eff06fc20b01025cd2903106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:21 +0000
Subject: [PATCH 13/16] fix: rfc5424: an invalid element id never touches the
 previous elements

Simplifies the previous fix: the element in progress is forgotten at its
opening bracket, so that there is nothing to compare with.
---
 rfc5424/machine.go    | 31 ++++++++++++++-----------------
 rfc5424/machine.go.rl | 12 +++++++-----
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index 8431c9e..3ea8232 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -1535,10 +1535,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st0
 	tr36:
 
-		if string(m.text()) == m.currentelem {
-			// Remove the element whose id is invalid, not the previous (complete) ones
-			delete(output.structuredData, m.currentelem)
-		}
+		delete(output.structuredData, m.currentelem)
 		if len(output.structuredData) == 0 {
 			output.hasElements = false
 		}
@@ -1574,10 +1571,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
-		if string(m.text()) == m.currentelem {
-			// Remove the element whose id is invalid, not the previous (complete) ones
-			delete(output.structuredData, m.currentelem)
-		}
+		delete(output.structuredData, m.currentelem)
 		if len(output.structuredData) == 0 {
 			output.hasElements = false
 		}
@@ -1980,6 +1974,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		output.structuredData = map[string]map[string]string{}
 
+		// The previous element (if any) is complete from now on
+		m.currentelem = ""
+
+		goto st17
+	tr92:
+
+		// The previous element (if any) is complete from now on
+		m.currentelem = ""
+
 		goto st17
 	st17:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2893,7 +2896,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st604
 		case 91:
-			goto st17
+			goto tr92
 		}
 		goto tr633
 	tr79:
@@ -11894,10 +11897,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 			case 17:
 
-				if string(m.text()) == m.currentelem {
-					// Remove the element whose id is invalid, not the previous (complete) ones
-					delete(output.structuredData, m.currentelem)
-				}
+				delete(output.structuredData, m.currentelem)
 				if len(output.structuredData) == 0 {
 					output.hasElements = false
 				}
@@ -11959,10 +11959,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					m.currentelem = id
 				}
 
-				if string(m.text()) == m.currentelem {
-					// Remove the element whose id is invalid, not the previous (complete) ones
-					delete(output.structuredData, m.currentelem)
-				}
+				delete(output.structuredData, m.currentelem)
 				if len(output.structuredData) == 0 {
 					output.hasElements = false
 				}
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index b2382c3..c22fb5f 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -114,6 +114,11 @@ action ini_elements {
 	output.structuredData = map[string]map[string]string{}
 }
 
+action ini_sdelement {
+	// The previous element (if any) is complete from now on
+	m.currentelem = ""
+}
+
 action set_id {
 	if _, ok := output.structuredData[string(m.text())]; ok {
 		// As per RFC5424 section 6.3.2 SD-ID MUST NOT exist more than once in a message
@@ -219,10 +224,7 @@ action err_structureddata {
 }
 
 action err_sdid {
-	if string(m.text()) == m.currentelem {
-		// Remove the element whose id is invalid, not the previous (complete) ones
-		delete(output.structuredData, m.currentelem)
-	}
+	delete(output.structuredData, m.currentelem)
 	if len(output.structuredData) == 0 {
 		output.hasElements = false
 	}
@@ -302,7 +304,7 @@ sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam $err(err_sdparam);
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
 sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
 
-sdelement = ('[' sdid (sp @end_sdparam sdparam)* ']');
+sdelement = ('[' @ini_sdelement sdid (sp @end_sdparam sdparam)* ']');
 
 structureddata = nilvalue | sdelement+ >ini_elements $err(err_structureddata);
 
-- 
2.43.0


From b7c2737c18cda8164959b545a9e86df11dec68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 14/16] fix: rfc3164: a closing bracket in the message does not
 replace the content

---
 rfc3164/machine.go    | 29 ++++++++---------------------
 rfc3164/machine.go.rl |  5 +++--
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 82a974c..f134c5c 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -2075,16 +2075,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof26
 		}
 	stCase26:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
+		if (m.data)[(m.p)] == 127 {
+			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st23
+			goto st0
 		}
-		goto tr48
+		goto tr42
 	tr48:
 
 		m.pb = m.p
@@ -2109,13 +2106,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		output.content = string(m.text())
 
-		goto st370
-	tr49:
-
-		output.content = string(m.text())
-
-		m.pb = m.p
-
 		goto st370
 	tr381:
 
@@ -2163,16 +2153,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof372
 		}
 	stCase372:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
+		if (m.data)[(m.p)] == 127 {
+			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st23
+			goto st0
 		}
-		goto tr48
+		goto tr42
 	st27:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof27
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index ba91ecb..865abdc 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -152,11 +152,12 @@ visible = print | 0x80..0xFF;
 # The first not alphanumeric character starts the content (usually containing a PID) part of the message part
 contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_content);
 
-content = '[' contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
+# The first "]: " ends the content, whatever follows belongs to the message
+content = '[' contentval :>> (']' ':' sp); # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
 mex = visible+ >mark %set_message;
 
-msg = (tag content? ':' sp)? mex;
+msg = (tag (content | ':' sp))? mex;
 
 fail := (any - [\n\r])* @err{ fgoto main; };
 
-- 
2.43.0


From 4219a96e2b2e053e8df9eda95af2b14cd0b894f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 15/16] fix: rfc3164: what only looks like a tag belongs to the
 message

---
 rfc3164/machine.go    | 17 +++++++++++++++--
 rfc3164/machine.go.rl | 23 ++++++++++++++++++++---
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index f134c5c..7142789 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -31,6 +31,8 @@ type machine struct {
 	cs         int
 	p, pe, eof int
 	pb         int
+	tagat      int
+	msgat      int
 	err        error
 	bestEffort bool
 	yyyy       int
@@ -98,6 +100,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.tagat = 0
+	m.msgat = 0
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
@@ -1256,7 +1260,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto tr42
 	tr42:
 
-		m.pb = m.p
+		m.msgat = m.p
 
 		goto st333
 	st333:
@@ -1275,6 +1279,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		m.pb = m.p
 
+		m.tagat = m.p
+
+		m.msgat = m.p
+
 		goto st334
 	st334:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -7170,7 +7178,12 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			switch m.cs {
 			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372:
 
-				output.message = string(m.text())
+				if m.tagat == m.msgat {
+					// What looked like a tag is part of the message
+					output.tag = ""
+					output.content = ""
+				}
+				output.message = string(m.data[m.msgat:m.p])
 
 			case 1:
 
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 865abdc..d52022b 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -32,6 +32,14 @@ action mark {
 	m.pb = m.p
 }
 
+action mark_tag {
+	m.tagat = m.p
+}
+
+action mark_msg {
+	m.msgat = m.p
+}
+
 action set_prival {
 	output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 	output.prioritySet = true
@@ -78,7 +86,12 @@ action set_content {
 }
 
 action set_message {
-	output.message = string(m.text())
+	if m.tagat == m.msgat {
+		// What looked like a tag is part of the message
+		output.tag = ""
+		output.content = ""
+	}
+	output.message = string(m.data[m.msgat:m.p])
 }
 
 action err_prival {
@@ -145,7 +158,7 @@ hostname = hostnamerange >mark %set_hostname $err(err_hostname);
 # note > alnum{1,32} is too restrictive (eg., no dashes)
 # note > see https://tools.ietf.org/html/rfc2234#section-2.1 for an interpretation of "ABNF alphanumeric" as stated by RFC 3164 regarding the tag
 # note > while RFC3164 assumes only ABNF alphanumeric process names, many BSD-syslog contains processe names with additional characters (-, _, .)
-tag = (print -- [ :\[]){1,32} >mark %set_tag @err(err_tag);
+tag = (print -- [ :\[]){1,32} >mark >mark_tag %set_tag @err(err_tag);
 
 visible = print | 0x80..0xFF;
 
@@ -155,7 +168,7 @@ contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_co
 # The first "]: " ends the content, whatever follows belongs to the message
 content = '[' contentval :>> (']' ':' sp); # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
-mex = visible+ >mark %set_message;
+mex = visible+ >mark_msg %set_message;
 
 msg = (tag (content | ':' sp))? mex;
 
@@ -172,6 +185,8 @@ type machine struct {
 	cs           int
 	p, pe, eof   int
 	pb           int
+	tagat        int
+	msgat        int
 	err          error
 	bestEffort   bool
 	yyyy         int
@@ -245,6 +260,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.tagat = 0
+	m.msgat = 0
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
-- 
2.43.0


From fa4aa7f7a1c6a7ae8a90e06b03fdf8a498468776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:21 +0000
Subject: [PATCH 16/16] fix: String() of a message whose structured data has no
 elements wrote no nil value

---
 rfc5424/builder.go    | 2 +-
 rfc5424/builder.go.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 3917607..a4cc20a 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9383,7 +9383,7 @@ func (sm *SyslogMessage) String() (string, error) {
 	if sm.MsgID != nil {
 		mid = *sm.MsgID
 	}
-	if sm.StructuredData != nil {
+	if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
 		// Sort element identifiers
 		identifiers := make([]string, 0)
 		for k := range *sm.StructuredData {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index a47c35e..12e42f9 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -286,7 +286,7 @@ func (sm *SyslogMessage) String() (string, error) {
     if sm.MsgID != nil {
         mid = *sm.MsgID
     }
-    if sm.StructuredData != nil {
+    if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
         // Sort element identifiers
         identifiers := make([]string, 0)
         for k, _ := range *sm.StructuredData {
-- 
2.43.0

