From d3573bfe40fc9f351fd48f51927d14292acc16fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 001/108] fix: clamp NaN parameter values into the normalized
 range

---
 pkg/framework/param/parameter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/parameter.go b/pkg/framework/param/parameter.go
index 8922c92..7db21c1 100644
--- a/pkg/framework/param/parameter.go
+++ b/pkg/framework/param/parameter.go
@@ -48,8 +48,8 @@ func (p *Parameter) GetValue() float64 {
 
 // SetValue sets the normalized value (0-1)
 func (p *Parameter) SetValue(value float64) {
-	// Clamp to 0-1
-	if value < 0 {
+	// Clamp to 0-1 (NaN, which compares false with everything, becomes 0)
+	if !(value >= 0) {
 		value = 0
 	} else if value > 1 {
 		value = 1
@@ -120,7 +120,7 @@ func (p *Parameter) Normalize(plain float64) float64 {
 		return 0
 	}
 	normalized := (plain - p.Min) / (p.Max - p.Min)
-	if normalized < 0 {
+	if !(normalized >= 0) {
 		return 0
 	}
 	if normalized > 1 {
-- 
2.43.0


From f5c316fca4ba00585139be8a3cba974e65ddd6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 002/108] fix: reject saved state with a negative parameter
 count

---
 pkg/framework/state/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 7b3eacf..906b731 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -119,6 +119,10 @@ func (m *Manager) Load(r io.Reader) error {
 		return err
 	}
 
+	if paramCount < 0 {
+		return fmt.Errorf("invalid parameter count %d", paramCount)
+	}
+
 	// Read each parameter
 	for i := int32(0); i < paramCount; i++ {
 		var id uint32
-- 
2.43.0


From 81b05af18718235392c1e0ec9561d3f919c3a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 003/108] fix: save the parameter count and table from one
 registry snapshot

---
 pkg/framework/state/manager.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 906b731..4fb0184 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -59,13 +59,14 @@ func (m *Manager) Save(w io.Writer) error {
 	}
 
 	// Write parameter count
-	paramCount := m.registry.Count()
+	params := m.registry.All()
+	paramCount := int32(len(params))
 	if err := binary.Write(w, binary.LittleEndian, paramCount); err != nil {
 		return err
 	}
 
 	// Write each parameter
-	for _, param := range m.registry.All() {
+	for _, param := range params {
 		// Write ID
 		if err := binary.Write(w, binary.LittleEndian, param.ID); err != nil {
 			return err
-- 
2.43.0


From 8e3c2f9c7204895674d9f161dbf5b1c16b162448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 004/108] fix: show the option or note nearest to a discrete
 value instead of truncating it

---
 pkg/framework/param/builders.go     | 24 +++++++++---------------
 pkg/framework/param/filter_types.go |  5 +++--
 pkg/framework/param/formatters.go   |  5 +++--
 3 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 26afb08..a4f34a9 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -2,6 +2,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -14,25 +15,18 @@ type ChoiceOption struct {
 
 // Choice creates a parameter builder for a multiple choice parameter
 func Choice(id uint32, name string, options []ChoiceOption) *Builder {
-	// Create name list for formatter
-	names := make([]string, len(options))
-	for i, opt := range options {
-		names[i] = opt.Name
-	}
-
-	// Create formatter
+	// Create formatter: the option nearest to the value (values that went
+	// through the normalized range rarely match an option exactly)
 	formatter := func(value float64) string {
+		name := "Unknown"
+		nearest := math.Inf(1)
 		for _, opt := range options {
-			if opt.Value == value {
-				return opt.Name
+			if distance := math.Abs(opt.Value - value); distance < nearest {
+				nearest = distance
+				name = opt.Name
 			}
 		}
-		// Fallback to index-based lookup for integer values
-		index := int(value)
-		if index >= 0 && index < len(names) {
-			return names[index]
-		}
-		return "Unknown"
+		return name
 	}
 
 	// Create parser
diff --git a/pkg/framework/param/filter_types.go b/pkg/framework/param/filter_types.go
index f0ea307..371c3a0 100644
--- a/pkg/framework/param/filter_types.go
+++ b/pkg/framework/param/filter_types.go
@@ -2,6 +2,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -36,7 +37,7 @@ var FilterTypeNames = []string{
 
 // FilterTypeFormatter formats filter type values
 func FilterTypeFormatter(value float64) string {
-	index := int(value)
+	index := int(math.Round(value))
 	if index >= 0 && index < len(FilterTypeNames) {
 		return FilterTypeNames[index]
 	}
@@ -118,7 +119,7 @@ var GateTypeNames = []string{
 
 // GateTypeFormatter formats gate type values
 func GateTypeFormatter(value float64) string {
-	index := int(value)
+	index := int(math.Round(value))
 	if index >= 0 && index < len(GateTypeNames) {
 		return GateTypeNames[index]
 	}
diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index 0d50798..c5df259 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -161,8 +161,9 @@ func PanParser(str string) (float64, error) {
 // NoteFormatter formats MIDI note numbers
 func NoteFormatter(noteNumber float64) string {
 	notes := []string{"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"}
-	note := int(noteNumber) % 12
-	octave := int(noteNumber)/12 - 1
+	number := int(math.Round(noteNumber))
+	note := ((number % 12) + 12) % 12
+	octave := (number-note)/12 - 1
 	return fmt.Sprintf("%s%d", notes[note], octave)
 }
 
-- 
2.43.0


From 6ea28f9ab2345e927c02263f00e3526e26293783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 005/108] fix: a choice of n options has n-1 steps, as hosts
 expect

---
 pkg/framework/param/builders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index a4f34a9..2488d6c 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -58,7 +58,7 @@ func Choice(id uint32, name string, options []ChoiceOption) *Builder {
 
 	return New(id, name).
 		Range(minVal, maxVal).
-		Steps(int32(len(options))).
+		Steps(int32(len(options)-1)).
 		Default(options[0].Value).
 		Formatter(formatter, parser)
 }
-- 
2.43.0


From cb72c5e12188834c4994cf0ef2f301d50c6bb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 006/108] fix: parse the displayed text of Q and compressor
 knee parameters

---
 pkg/framework/param/builders.go      | 6 +++++-
 pkg/framework/param/registry_auto.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 2488d6c..5ffe0a0 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -169,7 +169,11 @@ func QParameter(id uint32, name string, minQ, maxQ, defaultQ float64) *Builder {
 		Default(defaultQ).
 		Formatter(func(v float64) string {
 			return fmt.Sprintf("Q: %.2f", v)
-		}, nil)
+		}, func(s string) (float64, error) {
+			s = strings.TrimSpace(strings.ToLower(s))
+			s = strings.TrimSpace(strings.TrimPrefix(s, "q:"))
+			return parseFloat(s)
+		})
 }
 
 // PanParameter creates a stereo pan parameter
diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 5a9a8a4..83559a3 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -186,7 +186,7 @@ func (r *AutoRegistry) RegisterCompressorControls() error {
 		Add(New(0, "Knee").
 			Range(0, 10).
 			Default(2).
-			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, nil).
+			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, DecibelParser).
 			Build()).
 		Add(BypassParameter(0, "Auto Gain").Build()).
 		Build()
-- 
2.43.0


From 4d067f822fb0d43723fe046b838b0d42f491dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 007/108] fix: keep parameter defaults within the normalized
 range

---
 pkg/framework/param/builder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/framework/param/builder.go b/pkg/framework/param/builder.go
index 46f16e0..2bae6ae 100644
--- a/pkg/framework/param/builder.go
+++ b/pkg/framework/param/builder.go
@@ -37,8 +37,7 @@ func (b *Builder) Range(minVal, maxVal float64) *Builder {
 func (b *Builder) Default(value float64) *Builder {
 	// Convert to normalized
 	if b.param.Max > b.param.Min {
-		normalized := (value - b.param.Min) / (b.param.Max - b.param.Min)
-		b.param.DefaultValue = normalized
+		b.param.DefaultValue = b.param.Normalize(value)
 	}
 	return b
 }
-- 
2.43.0


From 0b58425e5483aa0e2a864de713ebc6e951c93c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 008/108] fix: B# and Cb belong to the octave they are written
 in

---
 pkg/framework/param/formatters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index c5df259..76c761c 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -172,7 +172,7 @@ func NoteParser(str string) (float64, error) {
 	str = strings.ToUpper(strings.TrimSpace(str))
 
 	noteMap := map[string]int{
-		"C": 0, "B#": 0,
+		"C": 0, "B#": 12,
 		"C#": 1, "DB": 1,
 		"D":  2,
 		"D#": 3, "EB": 3,
@@ -183,7 +183,7 @@ func NoteParser(str string) (float64, error) {
 		"G#": 8, "AB": 8,
 		"A":  9,
 		"A#": 10, "BB": 10,
-		"B": 11, "CB": 11,
+		"B": 11, "CB": -1,
 	}
 
 	// Find where the octave number starts
-- 
2.43.0


From 22030b7af7afc6a8d3d96c94ea707070f7c75e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 009/108] fix: automatic parameter IDs avoid IDs taken
 explicitly or reserved concurrently

---
 pkg/framework/param/registry_auto.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 83559a3..a01ea83 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -2,6 +2,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"sync/atomic"
 )
 
@@ -54,6 +55,7 @@ func (r *AutoRegistry) Register(params ...*Parameter) error {
 		}
 		
 		// Register the parameter
+		r.skipPast(p.ID)
 		r.params[p.ID] = p
 		r.order = append(r.order, p.ID)
 		r.nameToID[p.Name] = p.ID
@@ -62,6 +64,13 @@ func (r *AutoRegistry) Register(params ...*Parameter) error {
 	return nil
 }
 
+// skipPast keeps automatic IDs clear of an ID taken explicitly (the caller holds the lock)
+func (r *AutoRegistry) skipPast(id uint32) {
+	if id >= r.nextID.Load() && id != math.MaxUint32 {
+		r.nextID.Store(id + 1)
+	}
+}
+
 // RegisterWithID adds a parameter with a specific ID
 func (r *AutoRegistry) RegisterWithID(id uint32, param *Parameter) error {
 	r.mu.Lock()
@@ -75,12 +84,8 @@ func (r *AutoRegistry) RegisterWithID(id uint32, param *Parameter) error {
 		return fmt.Errorf("parameter ID %d already used by '%s'", id, existing.Name)
 	}
 	
-	// Update next ID if necessary
-	if id >= r.nextID.Load() {
-		r.nextID.Store(id + 1)
-	}
-	
 	// Register
+	r.skipPast(id)
 	r.params[id] = param
 	r.order = append(r.order, id)
 	r.nameToID[param.Name] = id
@@ -123,6 +128,9 @@ func (r *AutoRegistry) Clear() {
 
 // Reserve reserves a range of IDs for manual assignment
 func (r *AutoRegistry) Reserve(count uint32) uint32 {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	return r.nextID.Add(count) - count
 }
 
-- 
2.43.0


From 78025601e0d6231687b2bebd351819cd56687539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 010/108] fix: smoothers reach targets that need no step or
 have no ramp time

---
 pkg/framework/param/smoother.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index a903d0b..bc227ca 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -59,6 +59,8 @@ func (s *Smoother) SetTarget(target float64) {
 		// Calculate step size for linear smoothing
 		if s.rate > 0 {
 			s.step = (target - s.current) / s.rate
+		} else {
+			s.step = target - s.current
 		}
 		
 	case LogarithmicSmoothing:
@@ -79,6 +81,8 @@ func (s *Smoother) SetTarget(target float64) {
 		
 		if s.rate > 0 {
 			s.logStep = (s.logTarget - s.logCurrent) / s.rate
+		} else {
+			s.logStep = s.logTarget - s.logCurrent
 		}
 	}
 }
@@ -105,7 +109,7 @@ func (s *Smoother) Next() float64 {
 		s.current += s.step
 		
 		// Check if we've reached or passed the target
-		if (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
+		if (s.step >= 0 && s.current >= s.target) || (s.step <= 0 && s.current <= s.target) {
 			s.current = s.target
 			s.isSmoothing = false
 		}
@@ -115,7 +119,7 @@ func (s *Smoother) Next() float64 {
 		s.logCurrent += s.logStep
 		
 		// Check if we've reached the target
-		if (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
+		if (s.logStep >= 0 && s.logCurrent >= s.logTarget) || (s.logStep <= 0 && s.logCurrent <= s.logTarget) {
 			s.current = s.target
 			s.isSmoothing = false
 		} else {
-- 
2.43.0


From 16616093b8f62c578402afdb797af919bc963aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 011/108] fix: smoothed parameters follow every change of their
 value

---
 pkg/framework/param/smoother.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index bc227ca..273b0a4 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -195,6 +195,9 @@ func (sp *SmoothedParameter) SetValue(value float64) {
 // GetSmoothedValue returns the current smoothed value.
 func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 	if sp.enabled {
+		// The value may have changed without going through SetValue
+		// (SetPlainValue, a state load, or another holder of the parameter)
+		sp.smoother.SetTarget(sp.GetPlainValue())
 		return sp.smoother.Next()
 	}
 	return sp.GetPlainValue()
@@ -202,8 +205,9 @@ func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 
 // SetSmoothing enables or disables smoothing.
 func (sp *SmoothedParameter) SetSmoothing(enabled bool) {
+	wasEnabled := sp.enabled
 	sp.enabled = enabled
-	if !enabled {
+	if !enabled || !wasEnabled {
 		sp.smoother.Reset(sp.GetPlainValue())
 	}
 }
-- 
2.43.0


From f5b3826e35f6c9e6129b9266572ad7e53e4f4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 012/108] fix: derive the logarithmic smoothing rate from the
 sample rate too

---
 pkg/framework/param/smoother.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index 273b0a4..8c34804 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -220,7 +220,7 @@ func (sp *SmoothedParameter) SetSmoothingRate(rate float64) {
 
 // Update smoothing rate based on sample rate for time-based smoothing.
 func (sp *SmoothedParameter) UpdateSampleRate(sampleRate float64, targetTimeMs float64) {
-	if sp.smoother.smoothingType == LinearSmoothing {
+	if sp.smoother.smoothingType == LinearSmoothing || sp.smoother.smoothingType == LogarithmicSmoothing {
 		// Convert time to samples
 		samples := sampleRate * targetTimeMs / 1000.0
 		sp.SetSmoothingRate(samples)
-- 
2.43.0


From c452c5be6bd78154f73a58312a901f8f83ea0eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 013/108] fix: smoothers finish when the remaining step is
 below float resolution

---
 pkg/framework/param/smoother.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index 8c34804..8f9ad44 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -106,20 +106,23 @@ func (s *Smoother) Next() float64 {
 		
 	case LinearSmoothing:
 		// Linear interpolation
+		previous := s.current
 		s.current += s.step
 		
-		// Check if we've reached or passed the target
-		if (s.step >= 0 && s.current >= s.target) || (s.step <= 0 && s.current <= s.target) {
+		// Check if we've reached or passed the target (a step too small
+		// to move the value means it is already there)
+		if s.current == previous || (s.step >= 0 && s.current >= s.target) || (s.step <= 0 && s.current <= s.target) {
 			s.current = s.target
 			s.isSmoothing = false
 		}
 		
 	case LogarithmicSmoothing:
 		// Interpolate in log space
+		previous := s.logCurrent
 		s.logCurrent += s.logStep
 		
 		// Check if we've reached the target
-		if (s.logStep >= 0 && s.logCurrent >= s.logTarget) || (s.logStep <= 0 && s.logCurrent <= s.logTarget) {
+		if s.logCurrent == previous || (s.logStep >= 0 && s.logCurrent >= s.logTarget) || (s.logStep <= 0 && s.logCurrent <= s.logTarget) {
 			s.current = s.target
 			s.isSmoothing = false
 		} else {
-- 
2.43.0


From 7e4514b3270c4e64e973e19658e27183d42ba45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 014/108] fix: read the event queue under the lock that sorted
 it

---
 pkg/midi/queue.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pkg/midi/queue.go b/pkg/midi/queue.go
index 44b1bcb..c83572f 100644
--- a/pkg/midi/queue.go
+++ b/pkg/midi/queue.go
@@ -39,15 +39,13 @@ func (q *EventQueue) AddMultiple(events []Event) {
 }
 
 func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	// Sorting and reading happen under one lock: an event added in between
+	// would leave the queue unsorted for the search below.
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	if len(q.events) == 0 {
@@ -80,15 +78,13 @@ func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
 }
 
 func (q *EventQueue) GetAllEvents() []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	// Sorting and reading happen under one lock: an event added in between
+	// would leave the queue unsorted for the search below.
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	result := make([]Event, len(q.events))
-- 
2.43.0


From 28a55935ad33d0b38be0342e52a90503b9917d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 015/108] fix: compute exact note frequencies and nearest notes

---
 pkg/midi/events.go | 34 +++-------------------------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/pkg/midi/events.go b/pkg/midi/events.go
index 255ef3e..2f1ae2f 100644
--- a/pkg/midi/events.go
+++ b/pkg/midi/events.go
@@ -2,6 +2,7 @@ package midi
 
 import (
 	"fmt"
+	"math"
 )
 
 type EventType uint8
@@ -226,18 +227,7 @@ func NoteToFrequency(note uint8, tuningA4 float64) float64 {
 }
 
 func pow2(x float64) float64 {
-	// Fast approximation of 2^x
-	if x >= 0 {
-		whole := int(x)
-		frac := x - float64(whole)
-		// 2^whole * 2^frac
-		// Use Taylor series approximation for fractional part
-		fracPow := 1.0 + frac*(0.693147 + frac*(0.240227 + frac*0.055504))
-		return float64(uint64(1)<<uint(whole)) * fracPow
-	} else {
-		// For negative x, use 2^x = 1 / 2^(-x)
-		return 1.0 / pow2(-x)
-	}
+	return math.Exp2(x)
 }
 
 func FrequencyToNote(freq, tuningA4 float64) uint8 {
@@ -255,28 +245,10 @@ func FrequencyToNote(freq, tuningA4 float64) uint8 {
 }
 
 func log2(x float64) float64 {
-	// Fast approximation of log2(x)
 	if x <= 0 {
 		return -1000.0 // Return a very negative number for invalid input
 	}
-	
-	// Normalize x to [1, 2) range
-	exp := 0
-	for x >= 2.0 {
-		x /= 2.0
-		exp++
-	}
-	for x < 1.0 {
-		x *= 2.0
-		exp--
-	}
-	
-	// Now x is in [1, 2), use polynomial approximation
-	// log2(x) ≈ (x-1) * (1.4427 - 0.7213*(x-1) + 0.4821*(x-1)^2)
-	t := x - 1.0
-	frac := t * (1.4427 - t*(0.7213 - t*0.4821))
-	
-	return float64(exp) + frac
+	return math.Log2(x)
 }
 
 func NoteNumberToName(note uint8) string {
-- 
2.43.0


From 2410c157e873d09103dbd665deb40a25c0e4889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 016/108] fix: keep parameter changes at the same sample offset
 in order

---
 pkg/framework/process/context.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 2671989..7a47396 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -3,7 +3,6 @@ package process
 
 import (
 	"fmt"
-	"sort"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
 	"github.com/justyntemme/vst3go/pkg/midi"
@@ -246,11 +245,17 @@ func (c *Context) ResetParameterChanges() {
 
 // SortParameterChanges sorts parameter changes by sample offset for processing
 func (c *Context) SortParameterChanges() {
-	if c.changeCount > 1 {
-		// Sort only the active portion of the slice
-		sort.Slice(c.paramChanges[:c.changeCount], func(i, j int) bool {
-			return c.paramChanges[i].SampleOffset < c.paramChanges[j].SampleOffset
-		})
+	// Insertion sort over the active portion of the slice: it keeps changes at
+	// the same offset in the order they arrived and does not allocate
+	changes := c.paramChanges[:c.changeCount]
+	for i := 1; i < len(changes); i++ {
+		change := changes[i]
+		j := i
+		for j > 0 && changes[j-1].SampleOffset > change.SampleOffset {
+			changes[j] = changes[j-1]
+			j--
+		}
+		changes[j] = change
 	}
 }
 
-- 
2.43.0


From 56c9973ac7e19af64dcf83d8c9cc2740e633411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 017/108] fix: keep all parameter changes of a block

---
 pkg/framework/process/context.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 7a47396..07ba91d 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -227,15 +227,15 @@ func (c *Context) SetParameterAtOffset(paramID uint32, value float64, sampleOffs
 // AddParameterChange adds a parameter change for sample-accurate processing
 // This method is used during the parameter change collection phase
 func (c *Context) AddParameterChange(paramID uint32, value float64, sampleOffset int) {
-	// Ensure we don't exceed pre-allocated space
-	if c.changeCount < len(c.paramChanges) {
-		c.paramChanges[c.changeCount] = ParameterChange{
-			ParamID:      paramID,
-			Value:        value,
-			SampleOffset: sampleOffset,
-		}
-		c.changeCount++
-	}
+	// Appending reuses the pre-allocated space and grows it only for blocks
+	// with more changes than any before; dropping changes would leave
+	// parameters at stale values
+	c.paramChanges = append(c.paramChanges[:c.changeCount], ParameterChange{
+		ParamID:      paramID,
+		Value:        value,
+		SampleOffset: sampleOffset,
+	})
+	c.changeCount++
 }
 
 // ResetParameterChanges clears the parameter change list for the next processing block
-- 
2.43.0


From 8a2c353d679e7c8ac0e330b9c5093363e288df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 018/108] fix: no console output from the audio path when a
 parameter is automated

---
 pkg/framework/process/context.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 07ba91d..ece48d4 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -2,8 +2,6 @@
 package process
 
 import (
-	"fmt"
-
 	"github.com/justyntemme/vst3go/pkg/framework/param"
 	"github.com/justyntemme/vst3go/pkg/midi"
 )
@@ -217,10 +215,6 @@ func (c *Context) SetParameterAtOffset(paramID uint32, value float64, sampleOffs
 	if param := c.params.Get(paramID); param != nil {
 		// For backward compatibility, apply the change immediately
 		param.SetValue(value)
-
-		// Debug output for parameter changes
-		fmt.Printf("[PARAM_AUTOMATION] SetParameterAtOffset: id=%d, value=%.6f, offset=%d, plain=%.1f\n",
-			paramID, value, sampleOffset, param.GetPlainValue())
 	}
 }
 
-- 
2.43.0


From e5ae4b101a8c4c0d3013d73623257f2332a33945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 019/108] fix: musical positions before the project start stay
 within their bar and beat

---
 pkg/framework/process/context.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index ece48d4..1c41927 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -2,6 +2,8 @@
 package process
 
 import (
+	"math"
+
 	"github.com/justyntemme/vst3go/pkg/framework/param"
 	"github.com/justyntemme/vst3go/pkg/midi"
 )
@@ -50,7 +52,7 @@ type TransportInfo struct {
 
 // GetBarsBeats returns the current position in bars and beats
 func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
-	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigDenominator == 0 {
+	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigDenominator <= 0 || t.TimeSigNumerator <= 0 {
 		return 0, 0
 	}
 
@@ -59,7 +61,7 @@ func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
 	quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 	totalBeats := t.ProjectTimeMusic / quarterNotesPerBeat
 
-	bars = int(totalBeats / beatsPerBar)
+	bars = int(math.Floor(totalBeats / beatsPerBar))
 	beats = totalBeats - float64(bars)*beatsPerBar
 
 	return bars, beats
@@ -89,11 +91,20 @@ func (t *TransportInfo) GetBeatPosition() float64 {
 	if t.HasTimeSignature && t.TimeSigDenominator > 0 {
 		quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 		beatPosition := (positionInBar / quarterNotesPerBeat)
-		return beatPosition - float64(int(beatPosition)) // Get fractional part
+		return fraction(beatPosition)
 	}
 
 	// Default to quarter note = beat
-	return positionInBar - float64(int(positionInBar))
+	return fraction(positionInBar)
+}
+
+// fraction returns the fractional part of a position, in [0,1) before the
+// start of the project (pre-roll) too
+func fraction(position float64) float64 {
+	if f := position - math.Floor(position); f < 1 {
+		return f
+	}
+	return 0
 }
 
 // IsOnBeat returns true if the current position is at the start of a beat
-- 
2.43.0


From 1ded2972d1847013984c14fef2cbaf6f18ca0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 020/108] fix: releasing the sustain pedal keeps a key that was
 pressed again

---
 pkg/framework/voice/allocator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 07871fa..36f26b0 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -145,6 +145,9 @@ func (a *Allocator) ProcessEvent(event midi.Event) {
 
 // NoteOn handles a note on event
 func (a *Allocator) NoteOn(note uint8, velocity uint8) {
+	// The key is held again, so releasing the pedal must not release it
+	delete(a.sustainedNotes, note)
+
 	switch a.mode {
 	case ModePoly:
 		a.noteOnPoly(note, velocity)
-- 
2.43.0


From 6d94de2a7de4a384ea247c8380719a9dd86b89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 021/108] fix: a reused voice no longer answers to the note it
 played before

---
 pkg/framework/voice/allocator.go | 33 ++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 36f26b0..9544c69 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -238,6 +238,7 @@ func (a *Allocator) noteOnPoly(note uint8, velocity uint8) {
 	}
 
 	// Allocate the voice
+	a.detachVoice(voiceIdx)
 	a.voices[voiceIdx].TriggerNote(note, velocity)
 	a.noteToVoice[note] = []int{voiceIdx}
 }
@@ -374,21 +375,25 @@ func (a *Allocator) stealVoice() int {
 
 	if bestIdx != -1 {
 		// Remove the stolen voice from noteToVoice map
-		stolenNote := a.voices[bestIdx].GetNote()
-		if voices, exists := a.noteToVoice[stolenNote]; exists {
-			for i, idx := range voices {
-				if idx == bestIdx {
-					// Remove this index from the slice
-					a.noteToVoice[stolenNote] = append(voices[:i], voices[i+1:]...)
-					if len(a.noteToVoice[stolenNote]) == 0 {
-						delete(a.noteToVoice, stolenNote)
-					}
-					break
-				}
-			}
-		}
+		a.detachVoice(bestIdx)
 		a.voices[bestIdx].Stop()
 	}
 
 	return bestIdx
-}
\ No newline at end of file
+}
+
+// detachVoice removes a voice from the note it was triggered for. A voice that
+// ended by itself while its key is still held may serve another note by now.
+func (a *Allocator) detachVoice(voiceIdx int) {
+	for note, voices := range a.noteToVoice {
+		for i, idx := range voices {
+			if idx == voiceIdx {
+				a.noteToVoice[note] = append(voices[:i], voices[i+1:]...)
+				if len(a.noteToVoice[note]) == 0 {
+					delete(a.noteToVoice, note)
+				}
+				break
+			}
+		}
+	}
+}
-- 
2.43.0


From 4a10631dbf680e0f9852b262e016bc1693f6f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 022/108] fix: lowering the voice limit stops the voices beyond
 it

---
 pkg/framework/voice/allocator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 9544c69..58849c2 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -111,6 +111,11 @@ func (a *Allocator) SetMaxVoices(max int) {
 	if max < 1 {
 		max = 1
 	}
+	// Voices beyond the limit would never be released or counted again
+	for i := max; i < a.maxVoices; i++ {
+		a.voices[i].Stop()
+		a.detachVoice(i)
+	}
 	a.maxVoices = max
 }
 
-- 
2.43.0


From ab0d18db2323d148f56202e3357d73ec6050c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 023/108] fix: note 0 works in mono, legato and unison mode

---
 pkg/framework/voice/allocator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 58849c2..0ef5dd0 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -74,6 +74,7 @@ type Allocator struct {
 	
 	// Mono/Legato mode state
 	currentNote  uint8
+	noteHeld     bool // currentNote is valid (0 is a note, too)
 	previousNote uint8
 	glideTime    float64
 	glideActive  bool
@@ -205,6 +206,7 @@ func (a *Allocator) Reset() {
 	a.sustainPedal = false
 	a.activeVoices = 0
 	a.currentNote = 0
+	a.noteHeld = false
 	a.previousNote = 0
 	a.glideActive = false
 }
@@ -269,13 +271,14 @@ func (a *Allocator) noteOnMono(note uint8, velocity uint8) {
 	
 	a.previousNote = a.currentNote
 	a.currentNote = note
+	a.noteHeld = true
 	a.voices[0].TriggerNote(note, velocity)
 	a.noteToVoice = map[uint8][]int{note: {0}}
 }
 
 // noteOnLegato handles legato mode note on
 func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
-	if a.currentNote == 0 {
+	if !a.noteHeld {
 		// First note, trigger normally
 		a.noteOnMono(note, velocity)
 	} else {
@@ -290,10 +293,11 @@ func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
 
 // noteOffMono handles mono/legato mode note off
 func (a *Allocator) noteOffMono(note uint8, velocity uint8) {
-	if note == a.currentNote {
+	if a.noteHeld && note == a.currentNote {
 		a.voices[0].ReleaseNote()
 		delete(a.noteToVoice, note)
 		a.currentNote = 0
+		a.noteHeld = false
 		a.glideActive = false
 	}
 }
@@ -309,16 +313,18 @@ func (a *Allocator) noteOnUnison(note uint8, velocity uint8) {
 		a.noteToVoice[note][i] = i
 	}
 	a.currentNote = note
+	a.noteHeld = true
 }
 
 // noteOffUnison handles unison mode note off
 func (a *Allocator) noteOffUnison(note uint8, velocity uint8) {
-	if note == a.currentNote {
+	if a.noteHeld && note == a.currentNote {
 		for i := 0; i < a.maxVoices; i++ {
 			a.voices[i].ReleaseNote()
 		}
 		delete(a.noteToVoice, note)
 		a.currentNote = 0
+		a.noteHeld = false
 	}
 }
 
-- 
2.43.0


From c86f499a74034e424b09511ff6809a127994481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 024/108] fix: delay lines read within their buffer for every
 delay

---
 pkg/dsp/delay/delay.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index 5824f83..4b620b5 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -41,6 +41,15 @@ func (d *Line) Write(sample float32) {
 
 // Read gets a delayed sample (delay in samples)
 func (d *Line) Read(delaySamples float64) float32 {
+	// The newest sample in the line is one sample old and the oldest
+	// bufferSize samples; a delay outside that range has no sample to read
+	if !(delaySamples >= 1) {
+		delaySamples = 1
+	}
+	if delaySamples > float64(d.bufferSize) {
+		delaySamples = float64(d.bufferSize)
+	}
+
 	// Calculate read position
 	readPos := float64(d.writePos) - delaySamples
 	if readPos < 0 {
@@ -50,6 +59,9 @@ func (d *Line) Read(delaySamples float64) float32 {
 	// Linear interpolation
 	readPosInt := int(readPos)
 	frac := float32(readPos - float64(readPosInt))
+	if readPosInt >= d.bufferSize {
+		readPosInt = 0 // a position just below zero rounds up to the buffer size
+	}
 
 	// Get two samples for interpolation
 	s1 := d.buffer[readPosInt]
-- 
2.43.0


From 9b20f0479d5be21051e96ecb7c98c3a760527132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 025/108] fix: taps of a multi-tap delay have their full delay

---
 pkg/dsp/delay/delay.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index 4b620b5..3acf73b 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -219,9 +219,6 @@ func NewMultiTap(maxDelaySeconds, sampleRate float64, numTaps int) *MultiTapDela
 
 // ProcessMultiTap processes with multiple taps - returns stereo output
 func (m *MultiTapDelay) ProcessMultiTap(input float32, taps []TapOutput, outL, outR *float32) {
-	// Write input to delay line
-	m.Write(input)
-
 	// Clear outputs
 	*outL = 0
 	*outR = 0
@@ -243,6 +240,9 @@ func (m *MultiTapDelay) ProcessMultiTap(input float32, taps []TapOutput, outL, o
 		*outL += delayed * leftGain
 		*outR += delayed * rightGain
 	}
+
+	// Write input to delay line after reading, so that a tap has its full delay
+	m.Write(input)
 }
 
 // ModulatedDelay implements a delay with LFO modulation
-- 
2.43.0


From a37f7d46074148bc9cc6bb6ae4272907402eace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 026/108] fix: resetting a comb or modulated delay clears all
 of its state

---
 pkg/dsp/delay/delay.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index 3acf73b..cb673ec 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -166,6 +166,12 @@ func NewComb(maxDelaySeconds, sampleRate float64) *CombDelay {
 	}
 }
 
+// Reset clears the delay buffer and the damping filter
+func (c *CombDelay) Reset() {
+	c.Line.Reset()
+	c.dampVal = 0
+}
+
 // SetFeedback sets the comb feedback
 func (c *CombDelay) SetFeedback(feedback float32) {
 	c.feedback = feedback
@@ -265,6 +271,12 @@ func NewModulated(maxDelaySeconds, sampleRate float64) *ModulatedDelay {
 	}
 }
 
+// Reset clears the delay buffer and restarts the modulation
+func (m *ModulatedDelay) Reset() {
+	m.Line.Reset()
+	m.lfoPhase = 0
+}
+
 // SetLFO configures the modulation
 func (m *ModulatedDelay) SetLFO(rateHz, depthMs float64) {
 	m.lfoRate = rateHz
-- 
2.43.0


From a4af5a72216ab54b230edeae806e41f5d60a6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 027/108] fix: the allpass interpolator delays instead of
 passing its input through

---
 pkg/dsp/interpolation/interpolation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/interpolation/interpolation.go b/pkg/dsp/interpolation/interpolation.go
index f998baf..cbb97f4 100644
--- a/pkg/dsp/interpolation/interpolation.go
+++ b/pkg/dsp/interpolation/interpolation.go
@@ -117,7 +117,7 @@ func (ap *AllPass) Process(input, frac float32) float32 {
 	a := (1 - frac) / (1 + frac)
 	
 	// All-pass filter
-	output := input + a*ap.x1 - a*ap.y1
+	output := a*input + ap.x1 - a*ap.y1
 	
 	// Update state
 	ap.x1 = input
-- 
2.43.0


From 05ea3362a8b5302b0385d5962e3a3d8a505e3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 028/108] fix: sinc interpolation centers its window on the
 interpolated position

---
 pkg/dsp/interpolation/interpolation.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/interpolation/interpolation.go b/pkg/dsp/interpolation/interpolation.go
index cbb97f4..201671a 100644
--- a/pkg/dsp/interpolation/interpolation.go
+++ b/pkg/dsp/interpolation/interpolation.go
@@ -60,9 +60,12 @@ func Sinc(buffer []float32, index int, frac float32, windowSize int) float32 {
 			pi_x := math.Pi * float64(x)
 			sinc := float32(math.Sin(pi_x) / pi_x)
 			
-			// Blackman window
-			w := 0.42 - 0.5*math.Cos(2*math.Pi*(float64(i+halfWindow))/float64(windowSize)) +
-				0.08*math.Cos(4*math.Pi*(float64(i+halfWindow))/float64(windowSize))
+			// Blackman window, centered on the interpolated position
+			pos := float64(x) / float64(2*halfWindow)
+			if pos < -0.5 || pos > 0.5 {
+				continue
+			}
+			w := 0.42 + 0.5*math.Cos(2*math.Pi*pos) + 0.08*math.Cos(4*math.Pi*pos)
 			
 			result += buffer[idx] * sinc * float32(w)
 		}
-- 
2.43.0


From 550f7a693d65c60354127b57faecbd31fa31c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 029/108] fix: summing buffers of different lengths stays
 within each of them

The length was raised to the longer of the two instead of lowered to the
shorter, so Sum and SumWeighted ran off the end of a shorter buffer and
wrote beyond the destination.
---
 pkg/dsp/mix/mix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/mix/mix.go b/pkg/dsp/mix/mix.go
index 8f7c0eb..a55e160 100644
--- a/pkg/dsp/mix/mix.go
+++ b/pkg/dsp/mix/mix.go
@@ -108,7 +108,7 @@ func Sum(buffers [][]float32, dst []float32) {
 	// Sum all buffers
 	for _, buffer := range buffers {
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
@@ -139,7 +139,7 @@ func SumWeighted(buffers [][]float32, gains []float32, dst []float32) {
 		}
 		
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
-- 
2.43.0


From 82fa20875b1e25edfdb3b84ad68ca9588eadf27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 030/108] fix: the balanced pan law is 4.5 dB down at the
 center, not at the sides

The interpolated compensation was applied to the hard positions, which must
keep full gain, and left the center at -3 dB.
---
 pkg/dsp/pan/pan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index e379622..35fd307 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -120,7 +120,7 @@ func balancedPan(pan float32) (left, right float32) {
 	// centerGain := float32(0.595 / 0.707)
 	
 	// Interpolate compensation based on pan position
-	compensation := 1.0 - (pan*pan)*0.159 // Approximation for smooth transition
+	compensation := 1.0 - (1.0-pan*pan)*0.159 // Approximation for smooth transition
 	
 	left *= compensation
 	right *= compensation
-- 
2.43.0


From 46de092bd682472b652d19cfcd9ecc6fd50fa30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 031/108] fix: panning a stereo signal does not jump at the
 center

The center passes both channels at unity, but any other position started
from the pan law's center gain, 3 to 6 dB lower: sweeping through the center
clicked. Gains are now relative to the center of the law.
---
 pkg/dsp/pan/pan.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index 35fd307..ada023b 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -56,6 +56,11 @@ func Process(mono []float32, pan float32, law Law, leftOut, rightOut []float32)
 func ProcessStereo(leftIn, rightIn []float32, pan float32, law Law, leftOut, rightOut []float32) {
 	leftGain, rightGain := MonoToStereo(pan, law)
 	
+	// The center passes through, so gains are relative to the center's
+	centerLeft, centerRight := MonoToStereo(0, law)
+	leftGain /= centerLeft
+	rightGain /= centerRight
+	
 	length := len(leftIn)
 	if len(rightIn) < length {
 		length = len(rightIn)
-- 
2.43.0


From 9569077507f4dbb6a2dedcd1a5bf5b5ea2bfbccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 032/108] fix: pink noise has no constant offset

The running sum started at zero although the rows start with random values;
replacing them subtracted values that had never been added and left a random
DC offset for the life of the generator.
---
 pkg/dsp/utility/noise.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 677d9d2..3adfb72 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -51,9 +51,7 @@ func NewNoiseGenerator(noiseType NoiseType) *NoiseGenerator {
 	}
 	
 	// Initialize pink noise rows
-	for i := range gen.pinkRows {
-		gen.pinkRows[i] = gen.randomFloat()
-	}
+	gen.Reset()
 	
 	return gen
 }
@@ -108,6 +106,7 @@ func (n *NoiseGenerator) Reset() {
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
 		n.pinkRows[i] = n.randomFloat()
+		n.pinkRunningSum += n.pinkRows[i]
 	}
 }
 
-- 
2.43.0


From 7953d6116dd5350e1f98c88deb0c39733bf24e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 033/108] fix: pink noise uses all of its rows

The row index wrapped after 15 samples, so 4 of the 16 rows were ever
updated and the spectrum was flat below about fs/32.
---
 pkg/dsp/utility/noise.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 3adfb72..2f6a683 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -124,7 +124,7 @@ func (n *NoiseGenerator) generateWhite() float32 {
 func (n *NoiseGenerator) generatePink() float32 {
 	// Determine how many rows to update
 	n.pinkIndex++
-	if n.pinkIndex > 15 {
+	if n.pinkIndex >= 1<<len(n.pinkRows) {
 		n.pinkIndex = 0
 	}
 	
-- 
2.43.0


From c508df856edb9064ae5e79443668430a9c4d16b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 034/108] fix: seeded noise is reproducible for every noise
 type

SetSeed left the state of the previous random source in place, so two
generators with the same seed differed for all types but white.
---
 pkg/dsp/utility/noise.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 2f6a683..26d3c66 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -64,6 +64,7 @@ func (n *NoiseGenerator) SetType(noiseType NoiseType) {
 // SetSeed sets the random seed for reproducible noise.
 func (n *NoiseGenerator) SetSeed(seed int64) {
 	n.rand = rand.New(rand.NewSource(seed))
+	n.Reset()
 }
 
 // Next generates the next noise sample.
-- 
2.43.0


From 040ec15f7b351d486f8bc4ebcdf40312ccb434fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 035/108] fix: violet noise is differentiated blue noise

Both differentiators shared one state variable, so violet noise was the
difference of a blue and a white sample and fell with frequency.
---
 pkg/dsp/utility/noise.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 26d3c66..a64782d 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -37,6 +37,7 @@ type NoiseGenerator struct {
 	
 	// Blue/Violet noise state  
 	blueState float32
+	violetState float32
 	
 	// Random source
 	rand *rand.Rand
@@ -103,6 +104,7 @@ func (n *NoiseGenerator) GenerateAdd(buffer []float32, gain float32) {
 func (n *NoiseGenerator) Reset() {
 	n.brownState = 0
 	n.blueState = 0
+	n.violetState = 0
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
@@ -191,8 +193,8 @@ func (n *NoiseGenerator) generateBlue() float32 {
 func (n *NoiseGenerator) generateViolet() float32 {
 	// Violet noise has even more high frequency content
 	blue := n.generateBlue()
-	output := blue - n.blueState
-	n.blueState = blue
+	output := blue - n.violetState
+	n.violetState = blue
 	
 	// Scale to maintain amplitude
 	return output * 0.25
-- 
2.43.0


From a923ee4bfbb7ce5762f848678e443b9b24b2290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 036/108] fix: the oscillator phase wraps for negative
 frequencies too

With a negative frequency (through-zero modulation) the phase left [0,1) for
good: saw and triangle grew without bound and square and pulse stuck at 1.
---
 pkg/dsp/oscillator/oscillator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 99ee311..2cd47b8 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -40,7 +40,7 @@ func (o *Oscillator) Reset() {
 // updatePhase advances the phase and wraps it
 func (o *Oscillator) updatePhase() {
 	o.phase += o.phaseInc
-	if o.phase >= 1.0 {
+	if o.phase >= 1.0 || o.phase < 0.0 {
 		o.phase -= math.Floor(o.phase)
 	}
 }
-- 
2.43.0


From d36e5f4e82278f91d5fbc4e87fe65e6cfdfec597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 037/108] fix: the band-limited impulse train has one full
 impulse per period

The closed form was evaluated at twice the phase, so the train ran an octave
high with harmonics beyond Nyquist, and the samples around each impulse were
replaced by its mean instead of its peak. Zero and negative frequencies are
handled as well.
---
 pkg/dsp/oscillator/oscillator.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 2cd47b8..46168ca 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -157,7 +157,10 @@ func (b *BLITOscillator) SetFrequency(freq float64) {
 	b.phaseInc = freq / b.sampleRate
 
 	// Calculate number of harmonics below Nyquist
-	b.m = int(math.Floor(0.5 * b.sampleRate / freq))
+	b.m = 0
+	if n := 0.5 * b.sampleRate / math.Abs(freq); n < math.MaxInt32 {
+		b.m = int(n)
+	}
 
 	// Calculate amplitude scaling
 	b.a = 1.0 / (2.0*float64(b.m) + 1.0)
@@ -165,28 +168,19 @@ func (b *BLITOscillator) SetFrequency(freq float64) {
 
 // BLIT generates a band-limited impulse train sample
 func (b *BLITOscillator) BLIT() float32 {
-	// Generate BLIT using closed-form solution
-	phase2pi := 2.0 * math.Pi * b.phase
+	// Generate BLIT using closed-form solution, one impulse per period
+	phasePi := math.Pi * b.phase
 
-	var sample float64
-	if b.phase < b.phaseInc || b.phase > (1.0-b.phaseInc) {
-		// Near discontinuity, use limit value
-		sample = b.a
-	} else {
-		// Normal BLIT formula
-		denom := math.Sin(phase2pi)
-		if math.Abs(denom) > 1e-10 {
-			num := math.Sin(float64(2*b.m+1) * phase2pi)
-			sample = b.a * num / denom
-		} else {
-			sample = b.a
-		}
+	// At the impulse, use the limit value
+	sample := 1.0
+	if denom := math.Sin(phasePi); math.Abs(denom) > 1e-10 {
+		sample = b.a * math.Sin(float64(2*b.m+1)*phasePi) / denom
 	}
 
 	// Update phase
 	b.phase += b.phaseInc
-	if b.phase >= 1.0 {
-		b.phase -= 1.0
+	if b.phase >= 1.0 || b.phase < 0.0 {
+		b.phase -= math.Floor(b.phase)
 	}
 
 	return float32(sample)
-- 
2.43.0


From e5035214e01a1de3fb3dd5746d30258204f89a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 038/108] fix: the band-limited saw is a sawtooth

Its DC blocker had no pole and so undid the integration: the output was the
impulse train itself at a level proportional to the frequency. The mean of
the train is removed before integration instead.
---
 pkg/dsp/oscillator/oscillator.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 46168ca..e0d5c0e 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -188,23 +188,27 @@ func (b *BLITOscillator) BLIT() float32 {
 
 // BandLimitedSaw generates an alias-free sawtooth using integrated BLIT
 type BandLimitedSaw struct {
-	blit    *BLITOscillator
-	leaky   float64 // leaky integrator coefficient
-	state   float64 // integrator state
-	dcBlock float64 // DC blocking filter state
+	blit  *BLITOscillator
+	leaky float64 // leaky integrator coefficient
+	state float64 // integrator state
 }
 
 // NewBandLimitedSaw creates a new band-limited sawtooth oscillator
 func NewBandLimitedSaw(sampleRate float64) *BandLimitedSaw {
-	return &BandLimitedSaw{
+	s := &BandLimitedSaw{
 		blit:  NewBLIT(sampleRate),
-		leaky: 0.999, // Slight leak to prevent DC buildup
+		state: 1.0, // The first sample is an impulse, which steps from 1 to -1
 	}
+	s.SetFrequency(440.0)
+	return s
 }
 
 // SetFrequency sets the sawtooth frequency
 func (s *BandLimitedSaw) SetFrequency(freq float64) {
 	s.blit.SetFrequency(freq)
+
+	// Slight leak over many periods to prevent DC buildup
+	s.leaky = 1.0 - 0.02*math.Min(math.Abs(s.blit.phaseInc), 1.0)
 }
 
 // Next generates the next band-limited sawtooth sample
@@ -212,15 +216,11 @@ func (s *BandLimitedSaw) Next() float32 {
 	// Get BLIT sample
 	blit := float64(s.blit.BLIT())
 
-	// Leaky integration
-	s.state = s.leaky*s.state + blit
-
-	// DC blocking
-	output := s.state - s.dcBlock
-	s.dcBlock = s.state * 0.999
+	// Leaky integration of the impulse train without its mean, scaled so that
+	// the ramp rises by 2 per period and each impulse takes it back
+	s.state = s.leaky*s.state + 2.0*s.blit.phaseInc*(1.0-blit/s.blit.a)
 
-	// Scale to [-1, 1]
-	return float32(output * s.blit.phaseInc * 4.0)
+	return float32(s.state)
 }
 
 // Process fills buffer with band-limited sawtooth - no allocations
-- 
2.43.0


From 4ca088da18ca94fdb6113e1008f0445d4d9921ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 039/108] fix: soft clipping treats negative samples like
 positive ones

The sign was applied twice, so samples below the negative threshold were
folded back towards and across zero.
---
 pkg/dsp/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/buffer.go b/pkg/dsp/buffer.go
index b46bd6e..6039b72 100644
--- a/pkg/dsp/buffer.go
+++ b/pkg/dsp/buffer.go
@@ -106,7 +106,7 @@ func SoftClip(buffer []float32, threshold float32) {
 		if sample > threshold {
 			buffer[i] = threshold + (1.0-threshold)*float32(math.Tanh(float64(sample-threshold)))
 		} else if sample < -threshold {
-			buffer[i] = -threshold + (-1.0+threshold)*float32(math.Tanh(float64(sample+threshold)))
+			buffer[i] = -threshold + (1.0-threshold)*float32(math.Tanh(float64(sample+threshold)))
 		}
 	}
 }
-- 
2.43.0


From 5df623a5d147dbc2910983e30c771e5b04243177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 040/108] fix: the RMS detector does not turn into NaN after
 loud passages

Rounding in the running sum can leave it slightly negative in silence; its
square root poisoned the envelope for good.
---
 pkg/dsp/envelope/detector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/envelope/detector.go b/pkg/dsp/envelope/detector.go
index 3d62dcf..af7c09d 100644
--- a/pkg/dsp/envelope/detector.go
+++ b/pkg/dsp/envelope/detector.go
@@ -176,7 +176,8 @@ func (d *Detector) Detect(input float32) float32 {
 		d.rmsIndex = (d.rmsIndex + 1) % d.rmsWindowLen
 
 		// Calculate RMS
-		meanSquare := d.rmsSum / float64(d.rmsWindowLen)
+		// (rounding can leave the running sum slightly below zero)
+		meanSquare := math.Max(0, d.rmsSum) / float64(d.rmsWindowLen)
 		inputLevel = math.Sqrt(meanSquare)
 	}
 
-- 
2.43.0


From 4bc3bd244623ea486b4f4636b04c635141fc8cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 041/108] fix: the RMS detector has a window at every sample
 rate

Below 334 Hz the default window was empty and Detect panicked; SetRMSWindow
already guards against this.
---
 pkg/dsp/envelope/detector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/envelope/detector.go b/pkg/dsp/envelope/detector.go
index af7c09d..84aa9c1 100644
--- a/pkg/dsp/envelope/detector.go
+++ b/pkg/dsp/envelope/detector.go
@@ -68,6 +68,9 @@ func NewDetector(sampleRate float64, mode DetectorMode) *Detector {
 		envelope:     0.0,
 		holdCounter:  0,
 	}
+	if d.rmsWindowLen < 1 {
+		d.rmsWindowLen = 1
+	}
 
 	// Initialize RMS window if needed
 	if mode == ModeRMS {
-- 
2.43.0


From 97b97e8781440ef6047d370fb9c83ae902eadcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 042/108] fix: the decay of an envelope follows changes of the
 sustain level

The target was fixed when the decay began: lowering the sustain level during
the decay left the envelope at the old level and in the decay stage until
release.
---
 pkg/dsp/envelope/envelope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/envelope/envelope.go b/pkg/dsp/envelope/envelope.go
index 1541dfd..a808b11 100644
--- a/pkg/dsp/envelope/envelope.go
+++ b/pkg/dsp/envelope/envelope.go
@@ -148,6 +148,7 @@ func (e *ADSR) Next() float32 {
 		}
 
 	case StageDecay:
+		e.target = e.sustain // May have changed since the decay began
 		e.value = e.target + (e.value-e.target)*e.decayCoef
 		if e.value <= e.sustain+0.001 {
 			e.value = e.sustain
-- 
2.43.0


From 5bf9514331b134e24cb7e51af0aba301896ea1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 043/108] fix: the compressor knee never boosts, and a hard
 knee has no width

The interpolation used the overshoot over the threshold, which is negative in
the lower half of the knee, so levels just below the threshold were raised.
With a hard knee the width still applied: the gain dropped in one step at its
upper end.
---
 pkg/dsp/dynamics/compressor.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 8597208..55ba79b 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -121,34 +121,32 @@ func (c *Compressor) GetGainReduction() float64 {
 
 // computeGain calculates the gain reduction for a given input level
 func (c *Compressor) computeGain(inputDB float64) float64 {
+	kneeWidth := c.kneeWidth
+	if c.kneeType == KneeHard {
+		kneeWidth = 0
+	}
+
 	// Below threshold - knee: no compression
-	if inputDB < c.threshold-c.kneeWidth/2 {
+	if inputDB < c.threshold-kneeWidth/2 {
 		return 0.0
 	}
 
 	// Above threshold + knee: full compression
-	if inputDB > c.threshold+c.kneeWidth/2 {
+	if inputDB > c.threshold+kneeWidth/2 {
 		// Gain reduction formula: reduction = (input - threshold) * (1 - 1/ratio)
 		return (inputDB - c.threshold) * (1.0 - 1.0/c.ratio)
 	}
 
 	// In knee region: interpolate
-	if c.kneeType == KneeSoft && c.kneeWidth > 0 {
-		// Calculate position in knee (0 to 1)
-		kneePos := (inputDB - (c.threshold - c.kneeWidth/2)) / c.kneeWidth
-
+	if kneeWidth > 0 {
 		// Quadratic interpolation for smooth transition
-		// At kneePos=0: no compression
-		// At kneePos=1: full compression at this level
-		compressionRatio := 1.0 - 1.0/c.ratio
-		overshoot := inputDB - c.threshold
-
-		// Smooth transition using squared interpolation
-		kneeGain := kneePos * kneePos * overshoot * compressionRatio
-		return kneeGain
+		// At the bottom of the knee: no compression
+		// At the top of the knee: full compression at this level
+		intoKnee := inputDB - (c.threshold - kneeWidth/2)
+		return (1.0 - 1.0/c.ratio) * intoKnee * intoKnee / (2 * kneeWidth)
 	}
 
-	// Hard knee (shouldn't reach here if knee width is 0)
+	// Exactly at the threshold of a hard knee
 	return 0.0
 }
 
-- 
2.43.0


From ed06e252aa8a4adf11982f1059ccbfd41787cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 044/108] fix: the expander knee never boosts and respects the
 range

The interpolation used the distance to the threshold, which is positive in the
upper half of the knee, so levels just above the threshold were raised, and
the range limit did not apply within the knee.
---
 pkg/dsp/dynamics/expander.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pkg/dsp/dynamics/expander.go b/pkg/dsp/dynamics/expander.go
index 119d0f6..a692167 100644
--- a/pkg/dsp/dynamics/expander.go
+++ b/pkg/dsp/dynamics/expander.go
@@ -130,15 +130,10 @@ func (e *Expander) computeGain(inputDB float64) float64 {
 
 	// In knee region: interpolate
 	if e.knee > 0 {
-		// Calculate position in knee (0 to 1)
-		// 0 = top of knee (threshold + knee/2), 1 = bottom of knee
-		kneePos := ((e.threshold + e.knee/2) - inputDB) / e.knee
-
-		// Calculate full expansion at this level
-		fullGain := (inputDB - e.threshold) * (e.ratio - 1.0)
-
-		// Quadratic interpolation
-		return kneePos * kneePos * fullGain
+		// Quadratic interpolation between no expansion at the top of the
+		// knee (threshold + knee/2) and full expansion at its bottom
+		intoKnee := (e.threshold + e.knee/2) - inputDB
+		return math.Max(e.range_, -(e.ratio-1.0)*intoKnee*intoKnee/(2*e.knee))
 	}
 
 	return 0.0
-- 
2.43.0


From c5c6e78171554b4c00b8724e1e58b1fc898513d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 045/108] fix: a range set while the gate closes takes effect

The release kept closing to the old range and the closed gate stayed there.
---
 pkg/dsp/dynamics/gate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dsp/dynamics/gate.go b/pkg/dsp/dynamics/gate.go
index 314d691..ab145df 100644
--- a/pkg/dsp/dynamics/gate.go
+++ b/pkg/dsp/dynamics/gate.go
@@ -122,6 +122,8 @@ func (g *Gate) SetRange(dB float64) {
 		g.currentGain = math.Pow(10.0, g.range_/20.0)
 		g.targetGain = g.currentGain
 		g.gainReduction = g.range_
+	} else if g.state == gateStateRelease {
+		g.targetGain = math.Pow(10.0, g.range_/20.0)
 	}
 }
 
-- 
2.43.0


From fec43c3f67f22a7ded72b7e33c2bd92c711f5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 046/108] fix: soft knees stay within the hard knee above the
 threshold

The knee keeps its established curve on the far side of the threshold and is
flat, instead of boosting, on the near side.
---
 pkg/dsp/dynamics/compressor.go | 15 +++++++++++----
 pkg/dsp/dynamics/expander.go   | 13 +++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 55ba79b..6d81a9c 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -139,11 +139,18 @@ func (c *Compressor) computeGain(inputDB float64) float64 {
 
 	// In knee region: interpolate
 	if kneeWidth > 0 {
+		// Calculate position in knee (0 to 1)
+		kneePos := (inputDB - (c.threshold - kneeWidth/2)) / kneeWidth
+
 		// Quadratic interpolation for smooth transition
-		// At the bottom of the knee: no compression
-		// At the top of the knee: full compression at this level
-		intoKnee := inputDB - (c.threshold - kneeWidth/2)
-		return (1.0 - 1.0/c.ratio) * intoKnee * intoKnee / (2 * kneeWidth)
+		// At kneePos=0: no compression
+		// At kneePos=1: full compression at this level
+		compressionRatio := 1.0 - 1.0/c.ratio
+		overshoot := math.Max(0.0, inputDB-c.threshold)
+
+		// Smooth transition using squared interpolation
+		kneeGain := kneePos * kneePos * overshoot * compressionRatio
+		return kneeGain
 	}
 
 	// Exactly at the threshold of a hard knee
diff --git a/pkg/dsp/dynamics/expander.go b/pkg/dsp/dynamics/expander.go
index a692167..953cfea 100644
--- a/pkg/dsp/dynamics/expander.go
+++ b/pkg/dsp/dynamics/expander.go
@@ -130,10 +130,15 @@ func (e *Expander) computeGain(inputDB float64) float64 {
 
 	// In knee region: interpolate
 	if e.knee > 0 {
-		// Quadratic interpolation between no expansion at the top of the
-		// knee (threshold + knee/2) and full expansion at its bottom
-		intoKnee := (e.threshold + e.knee/2) - inputDB
-		return math.Max(e.range_, -(e.ratio-1.0)*intoKnee*intoKnee/(2*e.knee))
+		// Calculate position in knee (0 to 1)
+		// 0 = top of knee (threshold + knee/2), 1 = bottom of knee
+		kneePos := ((e.threshold + e.knee/2) - inputDB) / e.knee
+
+		// Calculate full expansion at this level
+		fullGain := math.Min(0.0, inputDB-e.threshold) * (e.ratio - 1.0)
+
+		// Quadratic interpolation
+		return math.Max(e.range_, kneePos*kneePos*fullGain)
 	}
 
 	return 0.0
-- 
2.43.0


From 9ab57555d7b4073f6ec1213cd4e097215fcba6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 047/108] fix: lookahead applies to stereo and sidechain
 processing too

The compressor and limiter delayed the signal only in mono: in stereo and with
a sidechain the lookahead setting had no effect and the latency differed.
---
 pkg/dsp/dynamics/compressor.go | 23 +++++++++++++++++++----
 pkg/dsp/dynamics/limiter.go    | 11 +++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 6d81a9c..9ccbf6a 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -36,6 +36,7 @@ type Compressor struct {
 
 	// Lookahead delay line
 	delayBuffer  []float32
+	delayBufferR []float32 // Right channel
 	delayIndex   int
 	delaySamples int
 
@@ -107,9 +108,11 @@ func (c *Compressor) SetLookahead(seconds float64) {
 		c.delaySamples = newDelaySamples
 		if c.delaySamples > 0 {
 			c.delayBuffer = make([]float32, c.delaySamples)
+			c.delayBufferR = make([]float32, c.delaySamples)
 			c.delayIndex = 0
 		} else {
 			c.delayBuffer = nil
+			c.delayBufferR = nil
 		}
 	}
 }
@@ -224,9 +227,15 @@ func (c *Compressor) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		totalGainDB := -gainReductionDB + c.makeupGain
 		gain := float32(math.Pow(10.0, totalGainDB/20.0))
 
-		// Apply same gain to both channels
-		outputL[i] = inputL[i] * gain
-		outputR[i] = inputR[i] * gain
+		// Apply same gain to both channels, behind the lookahead delay
+		processL, processR := inputL[i], inputR[i]
+		if c.delaySamples > 0 && c.delayBuffer != nil {
+			processL, c.delayBuffer[c.delayIndex] = c.delayBuffer[c.delayIndex], processL
+			processR, c.delayBufferR[c.delayIndex] = c.delayBufferR[c.delayIndex], processR
+			c.delayIndex = (c.delayIndex + 1) % c.delaySamples
+		}
+		outputL[i] = processL * gain
+		outputR[i] = processR * gain
 	}
 }
 
@@ -249,7 +258,12 @@ func (c *Compressor) ProcessSidechain(input, sidechain, output []float32) {
 		// Apply to input signal
 		totalGainDB := -gainReductionDB + c.makeupGain
 		gain := float32(math.Pow(10.0, totalGainDB/20.0))
-		output[i] = input[i] * gain
+		processSignal := input[i]
+		if c.delaySamples > 0 && c.delayBuffer != nil {
+			processSignal, c.delayBuffer[c.delayIndex] = c.delayBuffer[c.delayIndex], processSignal
+			c.delayIndex = (c.delayIndex + 1) % c.delaySamples
+		}
+		output[i] = processSignal * gain
 	}
 }
 
@@ -263,6 +277,7 @@ func (c *Compressor) Reset() {
 	if c.delayBuffer != nil {
 		for i := range c.delayBuffer {
 			c.delayBuffer[i] = 0
+			c.delayBufferR[i] = 0
 		}
 	}
 }
diff --git a/pkg/dsp/dynamics/limiter.go b/pkg/dsp/dynamics/limiter.go
index e93ed4a..452ea31 100644
--- a/pkg/dsp/dynamics/limiter.go
+++ b/pkg/dsp/dynamics/limiter.go
@@ -22,6 +22,7 @@ type Limiter struct {
 
 	// Lookahead delay
 	delayBuffer  []float32
+	delayBufferR []float32 // Right channel
 	delayIndex   int
 	delaySamples int
 
@@ -90,9 +91,11 @@ func (l *Limiter) updateLookahead() {
 		l.delaySamples = newDelaySamples
 		if l.delaySamples > 0 {
 			l.delayBuffer = make([]float32, l.delaySamples)
+			l.delayBufferR = make([]float32, l.delaySamples)
 			l.delayIndex = 0
 		} else {
 			l.delayBuffer = nil
+			l.delayBufferR = nil
 		}
 	}
 }
@@ -192,10 +195,9 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		// Process with lookahead
 		var processL, processR float32 = inputL[i], inputR[i]
 		if l.delaySamples > 0 && l.delayBuffer != nil {
-			// We need stereo delay buffers for proper stereo processing
-			// For now, using mono detection with stereo processing
-			processL = inputL[i]
-			processR = inputR[i]
+			processL, l.delayBuffer[l.delayIndex] = l.delayBuffer[l.delayIndex], processL
+			processR, l.delayBufferR[l.delayIndex] = l.delayBufferR[l.delayIndex], processR
+			l.delayIndex = (l.delayIndex + 1) % l.delaySamples
 		}
 
 		// Detect from combined peak
@@ -232,6 +234,7 @@ func (l *Limiter) Reset() {
 	if l.delayBuffer != nil {
 		for i := range l.delayBuffer {
 			l.delayBuffer[i] = 0
+			l.delayBufferR[i] = 0
 		}
 	}
 }
-- 
2.43.0


From d5203868378b721e425aa8a4ae22396c3471a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 048/108] fix: the limiter never exceeds its ceiling

The envelope lags behind rising levels and has started to release by the time
a delayed peak comes out, so peaks passed up to several dB above the ceiling
of a limiter documented as brick-wall.
---
 pkg/dsp/dynamics/limiter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/dynamics/limiter.go b/pkg/dsp/dynamics/limiter.go
index 452ea31..e838a43 100644
--- a/pkg/dsp/dynamics/limiter.go
+++ b/pkg/dsp/dynamics/limiter.go
@@ -149,6 +149,9 @@ func (l *Limiter) Process(input float32) float32 {
 	// Get envelope
 	envelope := l.detector.Detect(detectionSignal)
 
+	// The envelope takes time to rise; the ceiling holds for every sample
+	envelope = float32(math.Max(float64(envelope), math.Abs(float64(processSignal))))
+
 	// Convert to dB
 	inputDB := float64(-96.0)
 	if envelope > 0 {
@@ -203,6 +206,9 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		// Detect from combined peak
 		envelope := l.detector.Detect(maxPeak)
 
+		// The envelope takes time to rise; the ceiling holds for every sample
+		envelope = float32(math.Max(float64(envelope), math.Max(math.Abs(float64(processL)), math.Abs(float64(processR)))))
+
 		// Calculate limiting
 		inputDB := float64(-96.0)
 		if envelope > 0 {
-- 
2.43.0


From 65e5dd79c83f583cbbcfe5144f3d2dbae3f2210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 049/108] fix: random modulation waveforms do not share state
 between instances

The generator was a package variable, so two plugin instances raced on it
and changed each other's sequence; a reset left a random LFO at zero for a
whole period.
---
 pkg/dsp/modulation/lfo.go     | 26 +++++++++++++++++++-------
 pkg/dsp/modulation/tremolo.go |  1 +
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pkg/dsp/modulation/lfo.go b/pkg/dsp/modulation/lfo.go
index c1845a1..2961032 100644
--- a/pkg/dsp/modulation/lfo.go
+++ b/pkg/dsp/modulation/lfo.go
@@ -43,6 +43,8 @@ type LFO struct {
 	currentRandom float64
 	randomCounter int
 	randomPeriod  int
+	randomSeed    uint32
+	randomState   uint32
 }
 
 // NewLFO creates a new LFO
@@ -55,6 +57,7 @@ func NewLFO(sampleRate float64) *LFO {
 		offset:     0.0,
 		phase:      0.0,
 	}
+	lfo.setRandomSeed(1)
 
 	lfo.updatePhaseIncrement()
 	return lfo
@@ -72,7 +75,7 @@ func (l *LFO) SetWaveform(waveform Waveform) {
 	if waveform == WaveformRandom {
 		l.updateRandomPeriod()
 		// Generate initial random value
-		l.currentRandom = 2.0*randFloat() - 1.0
+		l.currentRandom = 2.0*l.randFloat() - 1.0
 		l.randomCounter = 0
 	}
 }
@@ -148,7 +151,7 @@ func (l *LFO) generateWaveform() float64 {
 		if l.randomCounter >= l.randomPeriod {
 			l.randomCounter = 0
 			// Generate new random value between -1 and 1
-			l.currentRandom = 2.0*randFloat() - 1.0
+			l.currentRandom = 2.0*l.randFloat() - 1.0
 		}
 		l.randomCounter++
 		return l.currentRandom
@@ -193,13 +196,22 @@ func (l *LFO) Reset() {
 	l.phase = 0.0
 	l.randomCounter = 0
 	l.currentRandom = 0.0
+	l.randomState = l.randomSeed
+	if l.waveform == WaveformRandom {
+		l.currentRandom = 2.0*l.randFloat() - 1.0
+	}
 }
 
-// Simple random number generator (can be replaced with better RNG)
-var randState uint32 = 1
+// setRandomSeed selects the sequence of the random waveform
+func (l *LFO) setRandomSeed(seed uint32) {
+	l.randomSeed = seed
+	l.randomState = seed
+}
 
-func randFloat() float64 {
+// Simple random number generator (can be replaced with better RNG).
+// Every LFO has its own state, so instances do not disturb each other.
+func (l *LFO) randFloat() float64 {
 	// Simple linear congruential generator
-	randState = randState*1664525 + 1013904223
-	return float64(randState) / float64(1<<32)
+	l.randomState = l.randomState*1664525 + 1013904223
+	return float64(l.randomState) / float64(1<<32)
 }
diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 4834625..41486b7 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -55,6 +55,7 @@ func NewTremolo(sampleRate float64) *Tremolo {
 	// Create LFOs
 	t.lfoL = NewLFO(sampleRate)
 	t.lfoR = NewLFO(sampleRate)
+	t.lfoR.setRandomSeed(2) // independent of the left channel
 
 	t.updateLFOs()
 	t.updateSmoothing()
-- 
2.43.0


From 5c02af66cd19e724e697b09a5bcfc59fbd59fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 050/108] fix: the stereo phase of the tremolo is an offset
 between the channels

It was applied as an absolute phase, so setting it while running gave an
arbitrary offset.
---
 pkg/dsp/modulation/tremolo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 41486b7..775d39b 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -118,9 +118,9 @@ func (t *Tremolo) updateLFOs() {
 
 	// Set phase offset for stereo
 	if t.stereo {
-		t.lfoR.SetPhase(t.phase)
+		t.lfoR.SetPhase(t.lfoL.GetPhase() + t.phase)
 	} else {
-		t.lfoR.SetPhase(0.0) // Same phase as left
+		t.lfoR.SetPhase(t.lfoL.GetPhase()) // Same phase as left
 	}
 }
 
-- 
2.43.0


From ca859b832a6686c7216ad52857e0a787934a23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 051/108] fix: the tremolo reports its gain without smoothing
 as well

GetCurrentGain returned a stale value, and smoothing started from it.
---
 pkg/dsp/modulation/tremolo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 775d39b..d704ce0 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -158,6 +158,8 @@ func (t *Tremolo) Process(input float32) float32 {
 	if t.smoothing {
 		t.smoothedGainL = gain + (t.smoothedGainL-gain)*t.smoothCoeff
 		gain = t.smoothedGainL
+	} else {
+		t.smoothedGainL = gain
 	}
 
 	// Apply amplitude modulation
@@ -193,6 +195,9 @@ func (t *Tremolo) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 		t.smoothedGainR = gainR + (t.smoothedGainR-gainR)*t.smoothCoeff
 		gainL = t.smoothedGainL
 		gainR = t.smoothedGainR
+	} else {
+		t.smoothedGainL = gainL
+		t.smoothedGainR = gainR
 	}
 
 	// Apply amplitude modulation
-- 
2.43.0


From f64cbce1388d71ccd80ea0ca9492e047f624598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 052/108] fix: a chorus keeps its voices apart after a reset

The reset put all voices at the same phase, which made them one voice.
---
 pkg/dsp/modulation/chorus.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index f6d7b64..de49071 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -95,15 +95,19 @@ func (c *Chorus) SetVoices(voices int) {
 		c.lfos[i] = NewLFO(c.sampleRate)
 		c.lfos[i].SetFrequency(c.rate)
 		c.lfos[i].SetWaveform(WaveformSine)
-
-		// Offset phase for each voice
-		phase := float64(i) / float64(c.voices)
-		c.lfos[i].SetPhase(phase)
 	}
 
+	c.spreadPhases()
 	c.updateDelayLines()
 }
 
+// spreadPhases offsets the LFO phase of each voice
+func (c *Chorus) spreadPhases() {
+	for i, lfo := range c.lfos {
+		lfo.SetPhase(float64(i) / float64(c.voices))
+	}
+}
+
 // updateDelayLines updates the delay line buffers
 func (c *Chorus) updateDelayLines() {
 	// Calculate maximum delay needed (base + modulation depth)
@@ -239,6 +243,7 @@ func (c *Chorus) Reset() {
 	for _, lfo := range c.lfos {
 		lfo.Reset()
 	}
+	c.spreadPhases()
 
 	c.delayIndex = 0
 	c.feedbackL = 0
-- 
2.43.0


From a5c9aba884673ec22be5858367d75accb3c2205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:35 +0000
Subject: [PATCH 053/108] fix: chorus and flanger depth take effect in full
 whenever they are set

The delay line was sized for the depth at the time the delay was set, so a
larger depth was cut off, and low sample rates left no line at all.
---
 pkg/dsp/modulation/chorus.go  | 10 ++++------
 pkg/dsp/modulation/flanger.go | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index de49071..8b8650c 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -110,12 +110,10 @@ func (c *Chorus) spreadPhases() {
 
 // updateDelayLines updates the delay line buffers
 func (c *Chorus) updateDelayLines() {
-	// Calculate maximum delay needed (base + modulation depth)
-	maxDelayMs := c.delay + c.depth
-	c.maxDelaySamples = int(maxDelayMs * c.sampleRate / 1000.0)
-
-	// Add some headroom
-	c.maxDelaySamples = int(float64(c.maxDelaySamples) * 1.2)
+	// Maximum delay of any setting (base + modulation depth), so that neither
+	// depends on the order in which they are set
+	maxDelayMs := 50.0 + 10.0
+	c.maxDelaySamples = int(maxDelayMs*c.sampleRate/1000.0) + 3
 
 	// Create delay lines for each voice
 	c.delayLinesL = make([][]float32, c.voices)
diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 94040ad..c3af6e7 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -94,12 +94,10 @@ func (f *Flanger) SetManualMode(enabled bool) {
 
 // updateDelayLine updates the delay line buffer size
 func (f *Flanger) updateDelayLine() {
-	// Calculate maximum delay needed
-	maxDelayMs := f.delay + f.depth
-	f.maxDelaySamples = int(maxDelayMs * f.sampleRate / 1000.0)
-
-	// Add some headroom
-	f.maxDelaySamples = int(float64(f.maxDelaySamples) * 1.2)
+	// Maximum delay of any setting (center + modulation depth), so that neither
+	// depends on the order in which they are set
+	maxDelayMs := 10.0 + 10.0
+	f.maxDelaySamples = int(maxDelayMs*f.sampleRate/1000.0) + 3
 
 	// Create new delay line
 	f.delayLine = make([]float32, f.maxDelaySamples)
-- 
2.43.0


From 9297d902e07ce7cc2a9f9c173e89d207e44a259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 054/108] fix: the right channel of the flanger has the same
 wet level as the left

---
 pkg/dsp/modulation/flanger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index c3af6e7..648a408 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -177,7 +177,7 @@ func (f *Flanger) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 
 	// Create right channel with inverted wet signal
 	outputL = flangedL
-	outputR = inputR*(1-float32(f.mix)) - wetL*float32(f.mix)
+	outputR = inputR*(1-float32(f.mix)) - wetL // wetL is scaled by the mix already
 
 	return outputL, outputR
 }
-- 
2.43.0


From f89130a62e8907fd7f93d52bfdcb32175365efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 055/108] fix: phaser stages turn the phase at their frequency

The sign of the coefficient put the 90 degree point of every stage at half
the sample rate minus its frequency, out of the audible range.
---
 pkg/dsp/modulation/phaser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/modulation/phaser.go b/pkg/dsp/modulation/phaser.go
index a51780a..327a965 100644
--- a/pkg/dsp/modulation/phaser.go
+++ b/pkg/dsp/modulation/phaser.go
@@ -18,9 +18,9 @@ func NewAllPassFilter() *AllPassFilter {
 // SetFrequency sets the filter frequency
 func (f *AllPassFilter) SetFrequency(freq, sampleRate float64) {
 	// Calculate coefficient for all-pass filter
-	// Using bilinear transform: a1 = (1 - tan(pi*fc/fs)) / (1 + tan(pi*fc/fs))
+	// Using bilinear transform: a1 = (tan(pi*fc/fs) - 1) / (tan(pi*fc/fs) + 1)
 	tanFreq := math.Tan(math.Pi * freq / sampleRate)
-	f.a1 = (1.0 - tanFreq) / (1.0 + tanFreq)
+	f.a1 = (tanFreq - 1.0) / (tanFreq + 1.0)
 }
 
 // Process processes a sample through the all-pass filter
-- 
2.43.0


From fca52c441d7cc64cef78cc7844379d2825e4bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 056/108] fix: the phaser depth takes effect, and its range
 survives a stage change

SetDepth changed nothing until the center frequency was set, and SetStages
overwrote a range set with SetFrequencyRange.
---
 pkg/dsp/modulation/phaser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/phaser.go b/pkg/dsp/modulation/phaser.go
index 327a965..43f4813 100644
--- a/pkg/dsp/modulation/phaser.go
+++ b/pkg/dsp/modulation/phaser.go
@@ -91,6 +91,7 @@ func NewPhaser(sampleRate float64) *Phaser {
 
 	// Initialize filters
 	p.updateStages()
+	p.updateFrequencyRange()
 
 	return p
 }
@@ -104,6 +105,7 @@ func (p *Phaser) SetRate(hz float64) {
 // SetDepth sets the modulation depth (0-1)
 func (p *Phaser) SetDepth(depth float64) {
 	p.depth = math.Max(0.0, math.Min(1.0, depth))
+	p.updateFrequencyRange()
 }
 
 // SetCenterFrequency sets the center frequency for modulation
@@ -150,7 +152,6 @@ func (p *Phaser) updateStages() {
 	for i := 0; i < p.stages; i++ {
 		p.filters[i] = NewAllPassFilter()
 	}
-	p.updateFrequencyRange()
 }
 
 // updateFrequencyRange updates the frequency range based on center and depth
-- 
2.43.0


From 71d51f9ad257840e9dc38acf7a627cad7523c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 057/108] fix: a ring modulator returns to its frequency when
 its LFO is switched off

---
 pkg/dsp/modulation/ringmod.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/modulation/ringmod.go b/pkg/dsp/modulation/ringmod.go
index 493a34e..696bddd 100644
--- a/pkg/dsp/modulation/ringmod.go
+++ b/pkg/dsp/modulation/ringmod.go
@@ -65,6 +65,7 @@ func (rm *RingModulator) SetWaveform(waveform Waveform) {
 // EnableLFO enables/disables LFO modulation of carrier frequency
 func (rm *RingModulator) EnableLFO(enabled bool) {
 	rm.lfoEnabled = enabled
+	rm.updatePhaseIncrement() // back to the set frequency when disabled
 }
 
 // SetLFORate sets the LFO modulation rate in Hz
-- 
2.43.0


From 66ce900d1ba7013c5e8e64267cdff80bf27cad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:58 +0000
Subject: [PATCH 058/108] fix: changing the delay of a chorus or flanger does
 not cut its sound

The delay line was reallocated and cleared on every change.
---
 pkg/dsp/modulation/chorus.go  | 1 -
 pkg/dsp/modulation/flanger.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index 8b8650c..79171ac 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -67,7 +67,6 @@ func (c *Chorus) SetDepth(ms float64) {
 // SetDelay sets the base delay time in milliseconds
 func (c *Chorus) SetDelay(ms float64) {
 	c.delay = math.Max(1.0, math.Min(50.0, ms))
-	c.updateDelayLines()
 }
 
 // SetMix sets the wet/dry mix (0=dry, 1=wet)
diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 648a408..c27f044 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -69,7 +69,6 @@ func (f *Flanger) SetDepth(ms float64) {
 // SetDelay sets the center delay time in milliseconds
 func (f *Flanger) SetDelay(ms float64) {
 	f.delay = math.Max(0.1, math.Min(10.0, ms))
-	f.updateDelayLine()
 }
 
 // SetFeedback sets the feedback amount (-1 to 1)
-- 
2.43.0


From 8008446d4ce04e67797080267b33722e480781df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 059/108] fix: foldback distortion ends for every input

The loop never ended for an infinite sample or a threshold of zero, and took
time proportional to the level otherwise.
---
 pkg/dsp/distortion/bitcrusher.go |  9 +--------
 pkg/dsp/distortion/waveshaper.go | 21 +++++++++++++++++++--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 140f56c..142d63f 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -216,14 +216,7 @@ func QuantizeToSteps(x float64, steps int) float64 {
 
 func FoldbackDistortion(x float64, threshold float64) float64 {
 	// Similar to waveshaper foldback but specific to bit-crushing context
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
-	}
-	return x
+	return fold(x, threshold)
 }
 
 func GateEffect(x, threshold float64) float64 {
diff --git a/pkg/dsp/distortion/waveshaper.go b/pkg/dsp/distortion/waveshaper.go
index 836515b..59089ed 100644
--- a/pkg/dsp/distortion/waveshaper.go
+++ b/pkg/dsp/distortion/waveshaper.go
@@ -114,8 +114,25 @@ func (w *Waveshaper) saturate(x float64) float64 {
 
 func (w *Waveshaper) foldback(x float64) float64 {
 	// Foldback distortion - wraps signal back when it exceeds threshold
-	threshold := 1.0
-	for x > threshold || x < -threshold {
+	return fold(x, 1.0)
+}
+
+// fold reflects x at +threshold and -threshold until it lies between them. It
+// takes the same time for every x.
+func fold(x, threshold float64) float64 {
+	if !(threshold > 0) {
+		return 0.0
+	}
+	if math.IsInf(x, 0) {
+		return math.Copysign(threshold, x)
+	}
+	if math.Abs(x) > threshold {
+		x = math.Mod(x, 4*threshold) // one period of the folding
+		if x > threshold {
+			x = 2*threshold - x
+		} else if x < -threshold {
+			x = -2*threshold - x
+		}
 		if x > threshold {
 			x = 2*threshold - x
 		} else if x < -threshold {
-- 
2.43.0


From fb165f12a8bfc5e7af3319d8ed30675fad71baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:41 +0000
Subject: [PATCH 060/108] fix: the bitcrusher holds samples of each channel
 separately

The sample and hold was shared, so the right channel played samples of the
left one and the rate was reduced half as much as set.
---
 pkg/dsp/distortion/bitcrusher.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 142d63f..3f4f32d 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -25,8 +25,8 @@ type Bitcrusher struct {
 	originalSampleRate float64
 
 	// Sample rate reduction state
-	sampleHoldCounter float64
-	lastSample        float64
+	sampleHoldCounter [2]float64 // Stereo
+	lastSample        [2]float64
 
 	// Anti-aliasing filter state (simple one-pole)
 	filterState [2]float64 // Stereo
@@ -84,7 +84,7 @@ func (b *Bitcrusher) processChannel(input float64, channel int) float64 {
 	}
 
 	// Sample rate reduction
-	processed = b.applySampleRateReduction(processed)
+	processed = b.applySampleRateReduction(processed, channel)
 
 	// Bit depth reduction
 	processed = b.applyBitReduction(processed)
@@ -129,25 +129,25 @@ func (b *Bitcrusher) applyBitReduction(x float64) float64 {
 	return math.Max(-1.0, math.Min(1.0, quantized))
 }
 
-func (b *Bitcrusher) applySampleRateReduction(x float64) float64 {
+func (b *Bitcrusher) applySampleRateReduction(x float64, channel int) float64 {
 	if b.sampleRateReduce <= 1.0 {
 		return x
 	}
 
 	// Check if we should update the held sample
-	if b.sampleHoldCounter == 0.0 {
-		b.lastSample = x
+	if b.sampleHoldCounter[channel] == 0.0 {
+		b.lastSample[channel] = x
 	}
 
 	// Increment counter
-	b.sampleHoldCounter += 1.0
+	b.sampleHoldCounter[channel] += 1.0
 
 	// Reset counter when we reach the reduction factor
-	if b.sampleHoldCounter >= b.sampleRateReduce {
-		b.sampleHoldCounter = 0.0
+	if b.sampleHoldCounter[channel] >= b.sampleRateReduce {
+		b.sampleHoldCounter[channel] = 0.0
 	}
 
-	return b.lastSample
+	return b.lastSample[channel]
 }
 
 func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
@@ -183,8 +183,8 @@ func (b *Bitcrusher) generateDither() float64 {
 }
 
 func (b *Bitcrusher) Reset() {
-	b.sampleHoldCounter = 0.0
-	b.lastSample = 0.0
+	b.sampleHoldCounter = [2]float64{}
+	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
 	b.ditherState = 0.0
-- 
2.43.0


From 583800a12756b12cbfcce80454d2e4a68dfbd720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 061/108] fix: fractional sample rate reduction reduces by that
 factor

The factor was rounded up to a whole number of samples.
---
 pkg/dsp/distortion/bitcrusher.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 3f4f32d..415005e 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -135,17 +135,14 @@ func (b *Bitcrusher) applySampleRateReduction(x float64, channel int) float64 {
 	}
 
 	// Check if we should update the held sample
-	if b.sampleHoldCounter[channel] == 0.0 {
+	if b.sampleHoldCounter[channel] <= 0.0 {
 		b.lastSample[channel] = x
+		// Keep the remainder, so that fractional factors hold on average
+		b.sampleHoldCounter[channel] += b.sampleRateReduce
 	}
 
-	// Increment counter
-	b.sampleHoldCounter[channel] += 1.0
-
-	// Reset counter when we reach the reduction factor
-	if b.sampleHoldCounter[channel] >= b.sampleRateReduce {
-		b.sampleHoldCounter[channel] = 0.0
-	}
+	// Count down the samples left to hold
+	b.sampleHoldCounter[channel] -= 1.0
 
 	return b.lastSample[channel]
 }
-- 
2.43.0


From 1e8445fa7bf86546a0dfc7c9419890421c9b2f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 062/108] fix: the anti-aliasing filter of the bitcrusher is
 stable for every factor

For reductions below 1.8 the coefficient left the stable range.
---
 pkg/dsp/distortion/bitcrusher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 415005e..aacb098 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -155,7 +155,10 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 
 	// Calculate filter coefficient
 	omega := 2.0 * math.Pi * cutoffFreq / b.originalSampleRate
-	alpha := math.Sin(omega) / (math.Sin(omega) + math.Cos(omega))
+	alpha := 1.0
+	if omega < math.Pi/2 { // above, the denominator vanishes or turns negative
+		alpha = math.Sin(omega) / (math.Sin(omega) + math.Cos(omega))
+	}
 
 	// Apply filter
 	b.filterState[channel] = b.filterState[channel] + alpha*(x-b.filterState[channel])
-- 
2.43.0


From ee5970c9a798152ee76b75814531e1dc80dd18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:34 +0000
Subject: [PATCH 063/108] fix: bitcrusher dither is noise of up to one step

Random bits were reinterpreted as floating point numbers, which gave huge
values and NaN, and the generator was shared between instances.
---
 pkg/dsp/distortion/bitcrusher.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index aacb098..ae27b41 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -32,7 +32,7 @@ type Bitcrusher struct {
 	filterState [2]float64 // Stereo
 
 	// Dithering state
-	ditherState float64
+	ditherState uint64
 }
 
 func NewBitcrusher(sampleRate float64) *Bitcrusher {
@@ -44,6 +44,7 @@ func NewBitcrusher(sampleRate float64) *Bitcrusher {
 		mix:                1.0,
 		output:             1.0,
 		originalSampleRate: sampleRate,
+		ditherState:        ditherSeed,
 	}
 }
 
@@ -166,16 +167,18 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 }
 
 func (b *Bitcrusher) generateDither() float64 {
+	step := 2.0 / math.Pow(2.0, b.bitDepth)
+
 	switch b.dither {
 	case DitherWhite:
-		// White noise dither
-		return (math.Float64frombits(randomBits()) - 0.5) * 2.0 / math.Pow(2.0, b.bitDepth)
+		// White noise dither of up to one quantization step
+		return (b.randomUnit() - 0.5) * 2.0 * step
 
 	case DitherTriangular:
 		// Triangular dither (sum of two uniform random values)
-		r1 := math.Float64frombits(randomBits()) - 0.5
-		r2 := math.Float64frombits(randomBits()) - 0.5
-		return (r1 + r2) / math.Pow(2.0, b.bitDepth)
+		r1 := b.randomUnit() - 0.5
+		r2 := b.randomUnit() - 0.5
+		return (r1 + r2) * step
 
 	default:
 		return 0.0
@@ -187,16 +190,18 @@ func (b *Bitcrusher) Reset() {
 	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
-	b.ditherState = 0.0
+	b.ditherState = ditherSeed
 }
 
-// Simple random number generator for dithering
-var randomState uint64 = 1
+// ditherSeed starts the noise of every instance
+const ditherSeed = 12
 
-func randomBits() uint64 {
+// randomUnit is a simple random number generator for dithering; it returns a
+// value in [0, 1)
+func (b *Bitcrusher) randomUnit() float64 {
 	// Simple linear congruential generator
-	randomState = randomState*6364136223846793005 + 1442695040888963407
-	return randomState
+	b.ditherState = b.ditherState*6364136223846793005 + 1442695040888963407
+	return float64(b.ditherState>>11) / (1 << 53)
 }
 
 // Utility functions for specific bit-crushing effects
-- 
2.43.0


From 88c593a01c6c872948dcc1765db247a12613e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 064/108] fix: tube saturation keeps the channels apart

Both channels ran through the same filters, which mixed them into each other.
---
 pkg/dsp/distortion/tube.go | 54 ++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/pkg/dsp/distortion/tube.go b/pkg/dsp/distortion/tube.go
index 192fd7a..e94999c 100644
--- a/pkg/dsp/distortion/tube.go
+++ b/pkg/dsp/distortion/tube.go
@@ -13,12 +13,12 @@ type TubeSaturation struct {
 	output     float64
 
 	// Internal state for hysteresis
-	prevInput  float64
-	prevOutput float64
+	prevInput  [2]float64 // Stereo state
+	prevOutput [2]float64
 
 	// Pre-emphasis/de-emphasis filters for warmth
-	preEmphasisState float64
-	deEmphasisState  float64
+	preEmphasisState [2]float64
+	deEmphasisState  [2]float64
 }
 
 func NewTubeSaturation() *TubeSaturation {
@@ -57,20 +57,24 @@ func (t *TubeSaturation) SetOutput(output float64) {
 }
 
 func (t *TubeSaturation) Process(input float64) float64 {
+	return t.processChannel(input, 0)
+}
+
+func (t *TubeSaturation) processChannel(input float64, channel int) float64 {
 	// Pre-emphasis for warmth (boost highs before saturation)
-	emphasized := t.preEmphasis(input)
+	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tube bias
 	biased := emphasized + t.bias*0.1
 
 	// Apply hysteresis (magnetic-like behavior)
-	withHysteresis := t.applyHysteresis(biased)
+	withHysteresis := t.applyHysteresis(biased, channel)
 
 	// Tube saturation with harmonic generation
 	saturated := t.tubeSaturate(withHysteresis)
 
 	// De-emphasis (reduce highs after saturation for warmth)
-	deEmphasized := t.deEmphasis(saturated)
+	deEmphasized := t.deEmphasis(saturated, channel)
 
 	// Mix with dry signal
 	mixed := deEmphasized*t.mix + input*(1.0-t.mix)
@@ -86,8 +90,8 @@ func (t *TubeSaturation) ProcessBlock(input, output []float64) {
 
 func (t *TubeSaturation) ProcessStereo(inputL, inputR, outputL, outputR []float64) {
 	for i := range inputL {
-		outputL[i] = t.Process(inputL[i])
-		outputR[i] = t.Process(inputR[i])
+		outputL[i] = t.processChannel(inputL[i], 0)
+		outputR[i] = t.processChannel(inputR[i], 1)
 	}
 }
 
@@ -148,47 +152,47 @@ func (t *TubeSaturation) tubeCompressionCurve(x float64) float64 {
 	return math.Copysign(compressed, x)
 }
 
-func (t *TubeSaturation) applyHysteresis(x float64) float64 {
+func (t *TubeSaturation) applyHysteresis(x float64, channel int) float64 {
 	// Simple hysteresis model
-	diff := x - t.prevInput
+	diff := x - t.prevInput[channel]
 
 	// Hysteresis effect based on input change direction
 	if diff > 0 {
 		// Rising input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.3)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.3)
 	} else {
 		// Falling input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.5)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.5)
 	}
 
-	t.prevInput = x
-	return t.prevOutput
+	t.prevInput[channel] = x
+	return t.prevOutput[channel]
 }
 
-func (t *TubeSaturation) preEmphasis(x float64) float64 {
+func (t *TubeSaturation) preEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency boost before saturation
 	// First-order high-pass filter
 	cutoff := 0.1 + t.warmth*0.4 // Higher warmth = higher cutoff = more pre-emphasis
 
-	output := x - t.preEmphasisState
-	t.preEmphasisState += output * cutoff
+	output := x - t.preEmphasisState[channel]
+	t.preEmphasisState[channel] += output * cutoff
 
 	// Mix between filtered and original based on warmth
 	return x + output*t.warmth*0.5
 }
 
-func (t *TubeSaturation) deEmphasis(x float64) float64 {
+func (t *TubeSaturation) deEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency cut after saturation
 	// First-order low-pass filter
 	cutoff := 0.9 - t.warmth*0.6 // Higher warmth = lower cutoff = more de-emphasis
 
-	t.deEmphasisState += (x - t.deEmphasisState) * cutoff
-	return t.deEmphasisState
+	t.deEmphasisState[channel] += (x - t.deEmphasisState[channel]) * cutoff
+	return t.deEmphasisState[channel]
 }
 
 func (t *TubeSaturation) Reset() {
-	t.prevInput = 0.0
-	t.prevOutput = 0.0
-	t.preEmphasisState = 0.0
-	t.deEmphasisState = 0.0
+	t.prevInput = [2]float64{}
+	t.prevOutput = [2]float64{}
+	t.preEmphasisState = [2]float64{}
+	t.deEmphasisState = [2]float64{}
 }
-- 
2.43.0


From 0d018af7a21114268f313d566a8c1cb1e85e43fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 065/108] fix: tape saturation keeps the channels apart

The envelope and the flutter delay were shared, so with flutter each channel
played samples of the other one, at twice the flutter rate.
---
 pkg/dsp/distortion/tape.go | 84 ++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 35 deletions(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index 53056fb..760ed41 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -26,12 +26,13 @@ type TapeSaturation struct {
 	flutterRate  float64
 
 	// Delay buffer for flutter effect
-	delayBuffer     []float64
+	delayBuffer     [2][]float64 // Stereo
 	delayBufferSize int
-	delayWritePos   int
+	delayWritePos   [2]int
+	flutterDelay    float64 // Current delay in samples, the same for both channels
 
 	// Compression state
-	envelope float64
+	envelope [2]float64
 
 	// Noise generator for tape hiss
 	noiseLevel float64
@@ -39,6 +40,9 @@ type TapeSaturation struct {
 
 func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 	bufferSize := int(sampleRate * 0.01) // 10ms max delay for flutter
+	if bufferSize < 16 {
+		bufferSize = 16 // room for the longest flutter delay
+	}
 
 	return &TapeSaturation{
 		saturation:      0.5,
@@ -48,7 +52,7 @@ func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 		mix:             1.0,
 		output:          1.0,
 		sampleRate:      sampleRate,
-		delayBuffer:     make([]float64, bufferSize),
+		delayBuffer:     [2][]float64{make([]float64, bufferSize), make([]float64, bufferSize)},
 		delayBufferSize: bufferSize,
 		flutterRate:     0.3 + rand.Float64()*0.2, // 0.3-0.5 Hz
 		noiseLevel:      0.0001,
@@ -88,13 +92,13 @@ func (t *TapeSaturation) processChannel(input float64, channel int) float64 {
 	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tape compression
-	compressed := t.tapeCompress(emphasized)
+	compressed := t.tapeCompress(emphasized, channel)
 
 	// Apply tape saturation
 	saturated := t.tapeSaturate(compressed)
 
 	// Apply flutter (pitch modulation)
-	fluttered := t.applyFlutter(saturated)
+	fluttered := t.applyFlutter(saturated, channel)
 
 	// Add subtle tape noise
 	withNoise := fluttered + (rand.Float64()*2.0-1.0)*t.noiseLevel*t.saturation
@@ -138,7 +142,7 @@ func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	return saturated*0.8 + third*0.2*t.saturation
 }
 
-func (t *TapeSaturation) tapeCompress(x float64) float64 {
+func (t *TapeSaturation) tapeCompress(x float64, channel int) float64 {
 	// Tape-style compression (program-dependent)
 
 	// Update envelope follower
@@ -146,21 +150,21 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	attack := 0.01
 	release := 0.1
 
-	if absX > t.envelope {
-		t.envelope += (absX - t.envelope) * attack
+	if absX > t.envelope[channel] {
+		t.envelope[channel] += (absX - t.envelope[channel]) * attack
 	} else {
-		t.envelope += (absX - t.envelope) * release
+		t.envelope[channel] += (absX - t.envelope[channel]) * release
 	}
 
 	// Calculate compression
 	threshold := 0.5
 	ratio := 2.0 + t.compression*3.0 // 2:1 to 5:1
 
-	if t.envelope > threshold {
+	if t.envelope[channel] > threshold {
 		// Calculate gain reduction
-		excess := t.envelope - threshold
+		excess := t.envelope[channel] - threshold
 		compressedExcess := excess / ratio
-		gainReduction := (threshold + compressedExcess) / t.envelope
+		gainReduction := (threshold + compressedExcess) / t.envelope[channel]
 
 		// Apply compression
 		return x * gainReduction
@@ -169,16 +173,37 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	return x
 }
 
-func (t *TapeSaturation) applyFlutter(x float64) float64 {
+func (t *TapeSaturation) applyFlutter(x float64, channel int) float64 {
 	if t.flutter < 0.01 {
 		return x
 	}
 
 	// Write to delay buffer
-	t.delayBuffer[t.delayWritePos] = x
-	t.delayWritePos = (t.delayWritePos + 1) % t.delayBufferSize
+	t.delayBuffer[channel][t.delayWritePos[channel]] = x
+	t.delayWritePos[channel] = (t.delayWritePos[channel] + 1) % t.delayBufferSize
+
+	// Calculate flutter modulation; both channels pass the same heads
+	if channel == 0 {
+		t.advanceFlutter()
+	}
+	delaySamples := t.flutterDelay
+
+	// Linear interpolation for fractional delay
+	delayInt := int(delaySamples)
+	delayFrac := delaySamples - float64(delayInt)
 
-	// Calculate flutter modulation
+	// Read from delay buffer with interpolation
+	readPos1 := (t.delayWritePos[channel] - delayInt + t.delayBufferSize) % t.delayBufferSize
+	readPos2 := (readPos1 - 1 + t.delayBufferSize) % t.delayBufferSize
+
+	sample1 := t.delayBuffer[channel][readPos1]
+	sample2 := t.delayBuffer[channel][readPos2]
+
+	return sample1*(1.0-delayFrac) + sample2*delayFrac
+}
+
+// advanceFlutter moves the flutter modulation on by one sample
+func (t *TapeSaturation) advanceFlutter() {
 	t.flutterPhase += 2.0 * math.Pi * t.flutterRate / t.sampleRate
 	if t.flutterPhase > 2.0*math.Pi {
 		t.flutterPhase -= 2.0 * math.Pi
@@ -196,20 +221,7 @@ func (t *TapeSaturation) applyFlutter(x float64) float64 {
 	modulation += (rand.Float64()*2.0 - 1.0) * modDepth * 0.3
 
 	// Calculate delayed position
-	delaySamples := 5.0 + modulation // Base delay + modulation
-
-	// Linear interpolation for fractional delay
-	delayInt := int(delaySamples)
-	delayFrac := delaySamples - float64(delayInt)
-
-	// Read from delay buffer with interpolation
-	readPos1 := (t.delayWritePos - delayInt + t.delayBufferSize) % t.delayBufferSize
-	readPos2 := (readPos1 - 1 + t.delayBufferSize) % t.delayBufferSize
-
-	sample1 := t.delayBuffer[readPos1]
-	sample2 := t.delayBuffer[readPos2]
-
-	return sample1*(1.0-delayFrac) + sample2*delayFrac
+	t.flutterDelay = 5.0 + modulation // Base delay + modulation
 }
 
 func (t *TapeSaturation) preEmphasis(x float64, channel int) float64 {
@@ -241,12 +253,14 @@ func (t *TapeSaturation) Reset() {
 	t.preEmphasisState[1] = 0.0
 	t.deEmphasisState[0] = 0.0
 	t.deEmphasisState[1] = 0.0
-	t.envelope = 0.0
+	t.envelope = [2]float64{}
 	t.flutterPhase = 0.0
-	t.delayWritePos = 0
+	t.delayWritePos = [2]int{}
 
 	// Clear delay buffer
-	for i := range t.delayBuffer {
-		t.delayBuffer[i] = 0.0
+	for channel := range t.delayBuffer {
+		for i := range t.delayBuffer[channel] {
+			t.delayBuffer[channel][i] = 0.0
+		}
 	}
 }
-- 
2.43.0


From e32ab11dc7fbf8da902918c099821b80ae5f14f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 066/108] fix: tape saturation saturates on loud signals

The cubic term turned over, so loud samples came out inverted and far above
full scale.
---
 pkg/dsp/distortion/tape.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index 760ed41..2382c4f 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -125,6 +125,9 @@ func (t *TapeSaturation) ProcessStereo(inputL, inputR, outputL, outputR []float6
 	}
 }
 
+// maxCubic is where x - 0.1x^3 has its maximum
+var maxCubic = math.Sqrt(1.0 / 0.3)
+
 func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	// Tape saturation characteristics
 	// Soft saturation with 3rd harmonic emphasis
@@ -136,7 +139,9 @@ func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	saturated := math.Tanh(driven * 0.7)
 
 	// Add subtle 3rd harmonic
-	third := driven - 0.1*driven*driven*driven
+	// up to the maximum of the polynomial, where it would turn down
+	limited := math.Max(-maxCubic, math.Min(maxCubic, driven))
+	third := limited - 0.1*limited*limited*limited
 
 	// Mix original and harmonics
 	return saturated*0.8 + third*0.2*t.saturation
-- 
2.43.0


From 7483c3c1241eb382161fa501cdf5d6db1ef1706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 067/108] fix: damping of the delay network is the amount set

It was inverted: no damping muted the delays and full damping passed them.
---
 pkg/dsp/reverb/fdn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 28950dc..17e2ec7 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -60,9 +60,9 @@ func NewDampingFilter() *DampingFilter {
 
 // SetDamping sets the damping coefficient (0-1, where 0 = no damping, 1 = maximum damping)
 func (d *DampingFilter) SetDamping(damping float64) {
-	// Convert damping to lowpass coefficient
+	// The damping is the lowpass coefficient
 	// Higher damping = lower cutoff frequency
-	d.coeff = 1.0 - math.Max(0.0, math.Min(1.0, damping))
+	d.coeff = math.Max(0.0, math.Min(1.0, damping))
 }
 
 // Process applies the damping filter
-- 
2.43.0


From 05268579122b48fe6aa449e35fb009a9d8590440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 068/108] fix: the 8x8 feedback matrix is orthogonal

All rows were equal up to the sign, which gave a single mode with a gain of
2.8 instead of eight lossless ones.
---
 pkg/dsp/reverb/fdn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 17e2ec7..c059b1b 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -2,6 +2,7 @@ package reverb
 
 import (
 	"math"
+	"math/bits"
 	"math/rand"
 )
 
@@ -156,12 +157,12 @@ func (f *FDN) createHadamardMatrix() {
 			}
 		}
 	} else if n == 8 {
-		// 8x8 Hadamard matrix (simplified)
+		// 8x8 Hadamard matrix
 		scale := 1.0 / math.Sqrt(8.0)
 		for i := 0; i < 8; i++ {
 			for j := 0; j < 8; j++ {
-				// Create a pattern that provides good diffusion
-				if (i+j)%2 == 0 {
+				// The sign is the parity of the common bits
+				if bits.OnesCount(uint(i&j))%2 == 0 {
 					f.feedbackMatrix[i][j] = scale
 				} else {
 					f.feedbackMatrix[i][j] = -scale
-- 
2.43.0


From 843ab6ca868932baf10bb0804dccc41091e3ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 069/108] fix: decay and diffusion of the delay network are
 applied once

Both scaled the matrix and again its result, so the tail was far shorter than
set, and other sizes than 4 and 8 got a new random matrix on every change.
---
 pkg/dsp/reverb/fdn.go | 43 +++++--------------------------------------
 1 file changed, 5 insertions(+), 38 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index c059b1b..09208e5 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -3,7 +3,6 @@ package reverb
 import (
 	"math"
 	"math/bits"
-	"math/rand"
 )
 
 // FDN implements a Feedback Delay Network reverb
@@ -179,18 +178,10 @@ func (f *FDN) createHadamardMatrix() {
 func (f *FDN) createHouseholderMatrix() {
 	n := f.numDelays
 
-	// Create a random unit vector
+	// Reflect at the vector of ones, which couples all delays equally
 	v := make([]float64, n)
-	sum := 0.0
 	for i := 0; i < n; i++ {
-		v[i] = rand.Float64() - 0.5
-		sum += v[i] * v[i]
-	}
-
-	// Normalize
-	norm := math.Sqrt(sum)
-	for i := 0; i < n; i++ {
-		v[i] /= norm
+		v[i] = 1.0 / math.Sqrt(float64(n))
 	}
 
 	// Create Householder matrix: H = I - 2*v*v^T
@@ -245,32 +236,7 @@ func (f *FDN) updateInternalParameters() {
 		f.dampingFilters[i].SetDamping(f.damping)
 	}
 
-	// Scale feedback matrix by decay amount
-	// Higher decay = more feedback = longer reverb tail
-	decayScale := 0.4 + f.decay*0.58 // Range from 0.4 to 0.98
-
-	// Apply diffusion by mixing with identity matrix
-	// Low diffusion = more parallel delays, high diffusion = more mixing
-	diffusionMix := f.diffusion
-	
-	// Create base Hadamard matrix
-	f.createHadamardMatrix()
-	
-	// Apply decay and diffusion scaling to feedback matrix
-	for i := 0; i < f.numDelays; i++ {
-		for j := 0; j < f.numDelays; j++ {
-			// Store original Hadamard value
-			hadamardValue := f.feedbackMatrix[i][j]
-			
-			if i == j {
-				// Mix between identity (no diffusion) and Hadamard (full diffusion)
-				f.feedbackMatrix[i][j] = decayScale * ((1.0-diffusionMix) + diffusionMix*hadamardValue)
-			} else {
-				// Off-diagonal elements scaled by diffusion
-				f.feedbackMatrix[i][j] = decayScale * diffusionMix * hadamardValue
-			}
-		}
-	}
+	// Decay and diffusion are applied to the feedback matrix in Process
 }
 
 // Process processes a mono input sample
@@ -313,7 +279,8 @@ func (f *FDN) Process(input float32) float32 {
 
 	// Apply feedback matrix to create new inputs
 	feedbackInputs := make([]float32, f.numDelays)
-	decayScale := float32(0.4 + f.decay*0.58)
+	// Higher decay = more feedback = longer reverb tail
+	decayScale := float32(0.4 + f.decay*0.58) // Range from 0.4 to 0.98
 
 	for i := 0; i < f.numDelays; i++ {
 		sum := float32(0)
-- 
2.43.0


From f298c69f9f4f0446cb33a3eafea2bacf680485ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 070/108] fix: the delay network does not allocate while
 processing

---
 pkg/dsp/reverb/fdn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 09208e5..c09b2e2 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -41,6 +41,10 @@ type FDN struct {
 	modDepth  float64
 	modRate   float64
 
+	// Work space of Process
+	delayOutputs   []float32
+	feedbackInputs []float32
+
 	sampleRate float64
 }
 
@@ -89,6 +93,8 @@ func NewFDN(numDelays int, sampleRate float64) *FDN {
 		dampingFilters: make([]*DampingFilter, numDelays),
 		modLFOs:        make([]float64, numDelays),
 		modPhases:      make([]float64, numDelays),
+		delayOutputs:   make([]float32, numDelays),
+		feedbackInputs: make([]float32, numDelays),
 		decay:          0.5,
 		damping:        0.5,
 		diffusion:      0.5,
@@ -242,7 +248,7 @@ func (f *FDN) updateInternalParameters() {
 // Process processes a mono input sample
 func (f *FDN) Process(input float32) float32 {
 	// Read outputs from all delay lines
-	delayOutputs := make([]float32, f.numDelays)
+	delayOutputs := f.delayOutputs
 
 	for i := 0; i < f.numDelays; i++ {
 		// Calculate modulated read position
@@ -278,7 +284,7 @@ func (f *FDN) Process(input float32) float32 {
 	}
 
 	// Apply feedback matrix to create new inputs
-	feedbackInputs := make([]float32, f.numDelays)
+	feedbackInputs := f.feedbackInputs
 	// Higher decay = more feedback = longer reverb tail
 	decayScale := float32(0.4 + f.decay*0.58) // Range from 0.4 to 0.98
 
-- 
2.43.0


From d0dcd9dbce34da1e1a9d39e423925600e33eefd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 071/108] fix: stereo processing of the delay network neither
 panics nor mixes twice

It indexed before the start of a delay line whenever that line wrapped, and
the wet and dry levels were applied twice.
---
 pkg/dsp/reverb/fdn.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index c09b2e2..9286eb4 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -247,6 +247,14 @@ func (f *FDN) updateInternalParameters() {
 
 // Process processes a mono input sample
 func (f *FDN) Process(input float32) float32 {
+	output := f.processWet(input)
+
+	// Apply wet/dry mix
+	return input*float32(f.dryLevel) + output*float32(f.wetLevel)
+}
+
+// processWet runs the network and returns the sum of its outputs
+func (f *FDN) processWet(input float32) float32 {
 	// Read outputs from all delay lines
 	delayOutputs := f.delayOutputs
 
@@ -326,8 +334,7 @@ func (f *FDN) Process(input float32) float32 {
 		output += delayOutputs[i] * float32(f.outputGains[i])
 	}
 
-	// Apply wet/dry mix
-	return input*float32(f.dryLevel) + output*float32(f.wetLevel)
+	return output
 }
 
 // ProcessStereo processes stereo input
@@ -336,7 +343,7 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	mono := (inputL + inputR) * 0.5
 
 	// Process through FDN
-	processed := f.Process(mono)
+	processed := f.processWet(mono)
 
 	// Create stereo output by using different combinations of delay outputs
 	// This is a simplified approach - a full implementation would have
@@ -349,20 +356,13 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	// Add some stereo width by phase inverting some of the signal
 	if f.numDelays >= 2 {
 		// Get two delay outputs for stereo decorrelation
-		delay1 := f.delayLines[0][f.writeIndices[0]-1]
-		if f.writeIndices[0]-1 < 0 {
-			delay1 = f.delayLines[0][len(f.delayLines[0])-1]
-		}
-
-		delay2 := f.delayLines[1][f.writeIndices[1]-1]
-		if f.writeIndices[1]-1 < 0 {
-			delay2 = f.delayLines[1][len(f.delayLines[1])-1]
-		}
+		delay1 := f.lastWritten(0)
+		delay2 := f.lastWritten(1)
 
 		// Add decorrelated signals to create width
 		spread := float32(0.3)
-		outputL += delay1 * spread * float32(f.wetLevel)
-		outputR += delay2 * spread * float32(f.wetLevel)
+		outputL += delay1 * spread
+		outputR += delay2 * spread
 	}
 
 	// Apply final wet/dry mix
@@ -372,6 +372,15 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	return outputL, outputR
 }
 
+// lastWritten returns the newest sample of a delay line
+func (f *FDN) lastWritten(line int) float32 {
+	last := f.writeIndices[line] - 1
+	if last < 0 {
+		last = len(f.delayLines[line]) - 1
+	}
+	return f.delayLines[line][last]
+}
+
 // Reset clears all internal state
 func (f *FDN) Reset() {
 	// Clear all delay lines
-- 
2.43.0


From a0509411576e02bdddcd8854b2583268248a28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:21 +0000
Subject: [PATCH 072/108] fix: freeverb freezes, and damping leaves it a tail

Frozen reverbs decayed and took in new sound, and the damping was not scaled,
so full damping stopped the feedback altogether.
---
 pkg/dsp/reverb/freeverb.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/reverb/freeverb.go b/pkg/dsp/reverb/freeverb.go
index 101e727..07edbad 100644
--- a/pkg/dsp/reverb/freeverb.go
+++ b/pkg/dsp/reverb/freeverb.go
@@ -152,27 +152,26 @@ func (f *Freeverb) update() {
 	// Set dry level
 	f.dry = f.dryLevel
 
-	// Apply freeze mode if active
-	var roomSize, damping float64
+	// Calculate feedback and damping values; freeze mode keeps the tail as it
+	// is and lets nothing new in
+	var feedback float64
 	if f.mode >= 0.5 {
-		roomSize = freezeRoom
-		damping = freezeDamp
+		feedback = freezeRoom
+		f.damp1 = freezeDamp
+		f.gain = muted
 	} else {
-		roomSize = f.roomSize
-		damping = f.damping
+		feedback = f.roomSize*scaleRoom + offsetRoom
+		f.damp1 = f.damping * scaleDamping
+		f.gain = fixedGain
 	}
-
-	// Calculate feedback and damping values
-	feedback := roomSize*scaleRoom + offsetRoom
-	f.damp1 = damping * scaleDamping
 	f.damp2 = 1.0 - f.damp1
 
 	// Update comb filters
 	for i := 0; i < numCombs; i++ {
 		f.combL[i].SetFeedback(feedback)
 		f.combR[i].SetFeedback(feedback)
-		f.combL[i].SetDamping(damping)
-		f.combR[i].SetDamping(damping)
+		f.combL[i].SetDamping(f.damp1)
+		f.combR[i].SetDamping(f.damp1)
 	}
 }
 
-- 
2.43.0


From 06e6df59d9a4ee078087ba21314f79edd1461dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:48 +0000
Subject: [PATCH 073/108] fix: transforms of any size are correct

Sizes that are not a power of two ran through the radix-2 algorithm and
came out as something unrelated to the spectrum.
---
 pkg/dsp/analysis/fft.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index 0667a32..d799eec 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -186,10 +186,38 @@ func (f *FFT) Inverse(real, imag []float64) []float64 {
 	return result
 }
 
+// dft evaluates the transform directly, for sizes that are no power of two
+func (f *FFT) dft(re, im []float64) {
+	n := f.size
+	outRe := make([]float64, n)
+	outIm := make([]float64, n)
+	
+	for k := 0; k < n; k++ {
+		for i, t := 0, 0; i < n; i++ {
+			s, c := math.Sincos(-2.0 * math.Pi * float64(t) / float64(n))
+			outRe[k] += re[i]*c - im[i]*s
+			outIm[k] += re[i]*s + im[i]*c
+			
+			// t is i*k modulo n
+			if t += k; t >= n {
+				t -= n
+			}
+		}
+	}
+	
+	copy(re, outRe)
+	copy(im, outIm)
+}
+
 // fft performs the actual FFT using Cooley-Tukey algorithm
 func (f *FFT) fft(real, imag []float64) {
 	n := f.size
 	
+	if n&(n-1) != 0 {
+		f.dft(real, imag)
+		return
+	}
+	
 	// Bit reversal
 	j := 0
 	for i := 0; i < n; i++ {
-- 
2.43.0


From e85a91ddd1fbfa8bc8b1e94170e481ab4a98b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:50 +0000
Subject: [PATCH 074/108] fix: cross-correlation correlates its two signals

Both spectra were the same internal buffer, so the result was always the
second signal against itself, and the missing half of the spectrum was
filled with the wrong bins.
---
 pkg/dsp/analysis/fft.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index d799eec..8232671 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -331,6 +331,9 @@ func CrossCorrelation(a, b []float64) []float64 {
 	if len(b) != n {
 		panic("signals must have the same length")
 	}
+	if n == 0 {
+		return []float64{}
+	}
 	
 	// Pad to next power of 2 for FFT efficiency
 	size := 1
@@ -341,23 +344,22 @@ func CrossCorrelation(a, b []float64) []float64 {
 	fft := NewFFT(size, RectangularWindow)
 	
 	// Zero-pad inputs
-	paddedA := make([]float64, size)
-	paddedB := make([]float64, size)
-	copy(paddedA, a)
-	copy(paddedB, b)
+	paddedA := make([]complex128, size)
+	paddedB := make([]complex128, size)
+	for i := 0; i < n; i++ {
+		paddedA[i] = complex(a[i], 0)
+		paddedB[i] = complex(b[i], 0)
+	}
 	
 	// Forward FFT
-	magA, phaseA := fft.Forward(paddedA)
-	magB, phaseB := fft.Forward(paddedB)
+	specA := fft.ForwardComplex(paddedA)
+	specB := fft.ForwardComplex(paddedB)
 	
-	// Multiply A with conjugate of B
+	// Multiply B with conjugate of A, so that a positive lag means b is late
 	realResult := make([]float64, size)
 	imagResult := make([]float64, size)
 	for i := 0; i < size; i++ {
-		// Convert to complex, multiply, then back to real/imag
-		aComplex := cmplx.Rect(magA[i%len(magA)], phaseA[i%len(phaseA)])
-		bComplex := cmplx.Rect(magB[i%len(magB)], -phaseB[i%len(phaseB)]) // conjugate
-		result := aComplex * bComplex
+		result := cmplx.Conj(specA[i]) * specB[i]
 		realResult[i] = real(result)
 		imagResult[i] = imag(result)
 	}
-- 
2.43.0


From bd94737c5232d43677c594e297905bd8b6c91453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:51 +0000
Subject: [PATCH 075/108] fix: an inverse transform of a short spectrum does
 not mix in old data

---
 pkg/dsp/analysis/fft.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index 8232671..342a98f 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -165,8 +165,12 @@ func (f *FFT) ForwardComplex(input []complex128) []complex128 {
 // Inverse performs an inverse FFT
 func (f *FFT) Inverse(real, imag []float64) []float64 {
 	// Copy input
-	copy(f.real, real)
-	copy(f.imag, imag)
+	for i := copy(f.real, real); i < f.size; i++ {
+		f.real[i] = 0
+	}
+	for i := copy(f.imag, imag); i < f.size; i++ {
+		f.imag[i] = 0
+	}
 	
 	// Conjugate
 	for i := 0; i < f.size; i++ {
-- 
2.43.0


From c11ff551d1cda3c1fb644cf127a6a8a929923c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 076/108] fix: the -120 dB floor of spectra holds for every
 magnitude

A bin of magnitude zero was shown louder than one just above zero.
---
 pkg/dsp/analysis/fft.go      | 14 +++++++++-----
 pkg/dsp/analysis/spectrum.go | 12 ++----------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index 342a98f..dac6734 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -273,15 +273,19 @@ func (f *FFT) fft(real, imag []float64) {
 func (f *FFT) GetMagnitudeDB() []float64 {
 	db := make([]float64, len(f.magnitude))
 	for i, mag := range f.magnitude {
-		if mag > 0 {
-			db[i] = 20.0 * math.Log10(mag)
-		} else {
-			db[i] = -120.0 // Floor at -120 dB
-		}
+		db[i] = magnitudeDB(mag)
 	}
 	return db
 }
 
+// magnitudeDB converts a magnitude to decibels with a floor at -120 dB
+func magnitudeDB(mag float64) float64 {
+	if mag > 1e-6 {
+		return 20.0 * math.Log10(mag)
+	}
+	return -120.0
+}
+
 // GetFrequencyBin returns the frequency corresponding to a given FFT bin
 func (f *FFT) GetFrequencyBin(bin int, sampleRate float64) float64 {
 	return float64(bin) * sampleRate / float64(f.size)
diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index 27032e4..0fb3468 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -203,11 +203,7 @@ func (sa *SpectrumAnalyzer) GetSpectrumDB() []float64 {
 	
 	db := make([]float64, len(sa.outputBuffer))
 	for i, mag := range sa.outputBuffer {
-		if mag > 0 {
-			db[i] = 20.0 * math.Log10(mag)
-		} else {
-			db[i] = -120.0 // Floor at -120 dB
-		}
+		db[i] = magnitudeDB(mag)
 	}
 	return db
 }
@@ -233,11 +229,7 @@ func (sa *SpectrumAnalyzer) GetSpectrumDBInRange() []float64 {
 	db := make([]float64, len(spectrum))
 	
 	for i, mag := range spectrum {
-		if mag > 0 {
-			db[i] = 20.0 * math.Log10(mag)
-		} else {
-			db[i] = -120.0
-		}
+		db[i] = magnitudeDB(mag)
 	}
 	return db
 }
-- 
2.43.0


From 938bdc8b7b3933fb91bf99e0c6fc4ef429c7c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:54 +0000
Subject: [PATCH 077/108] fix: linear averaging without a buffer size still
 updates the spectrum

---
 pkg/dsp/analysis/spectrum.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index 0fb3468..c33ee18 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -72,6 +72,9 @@ func (sa *SpectrumAnalyzer) SetAveraging(mode AveragingMode, bufferSize int) {
 	defer sa.mu.Unlock()
 	
 	sa.averaging = mode
+	if mode != NoAveraging && bufferSize < 1 && sa.avgBuffer == nil {
+		bufferSize = 1
+	}
 	if mode != NoAveraging && bufferSize > 0 {
 		sa.avgBuffer = make([][]float64, bufferSize)
 		for i := range sa.avgBuffer {
-- 
2.43.0


From 24b3be6cecd34349b92181a88d6fbcc703970cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 078/108] fix: the Nyquist bin belongs to a frequency range
 that reaches it

---
 pkg/dsp/analysis/spectrum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index c33ee18..7b682f8 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -111,8 +111,8 @@ func (sa *SpectrumAnalyzer) updateFrequencyRange() {
 	sa.minBin = int(sa.minFreq / binWidth)
 	sa.maxBin = int(sa.maxFreq/binWidth) + 1
 	
-	if sa.maxBin > sa.fftSize/2 {
-		sa.maxBin = sa.fftSize / 2
+	if sa.maxBin > len(sa.outputBuffer) {
+		sa.maxBin = len(sa.outputBuffer)
 	}
 }
 
-- 
2.43.0


From 4ccd1a2a433483650aeb3f4c98e79e24ee191754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 079/108] fix: the RMS meter recovers from loud passages

The running sum kept the rounding errors of a loud passage and could become
negative, which gave NaN.
---
 pkg/dsp/analysis/meters.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index b8ccad2..e0cde60 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -156,6 +156,15 @@ func (rm *RMSMeter) Process(samples []float64) {
 		if rm.count < rm.windowSize {
 			rm.count++
 		}
+		
+		// Start from the exact sum once per window, so that rounding
+		// errors do not add up and outlast a loud passage
+		if rm.writePos == 0 {
+			rm.sum = 0
+			for _, v := range rm.buffer {
+				rm.sum += v * v
+			}
+		}
 	}
 }
 
@@ -168,7 +177,7 @@ func (rm *RMSMeter) GetRMS() float64 {
 		return 0
 	}
 	
-	return math.Sqrt(rm.sum / float64(rm.count))
+	return math.Sqrt(math.Max(0, rm.sum) / float64(rm.count))
 }
 
 // GetRMSDB returns the current RMS level in decibels
-- 
2.43.0


From 87e5c389877596318e6624963bbc9647c84681f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 080/108] fix: K-weighting removes low frequencies

The second stage of BS.1770-4 is a high-pass at 38 Hz with the numerator
1, -2, 1; it was a filter that passed everything down to DC.
---
 pkg/dsp/analysis/meters.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index e0cde60..c888ebf 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -319,7 +319,7 @@ func (lm *LUFSMeter) createKWeightingPreFilter() *BiquadFilter {
 
 // createKWeightingHighShelf creates the K-weighting high shelf filter
 func (lm *LUFSMeter) createKWeightingHighShelf() *BiquadFilter {
-	// ITU-R BS.1770-4 high shelf coefficients
+	// ITU-R BS.1770-4 coefficients of the second stage (RLB high-pass)
 	f0 := 38.13547087602444
 	Q := 0.5003270373238773
 	K := math.Tan(math.Pi * f0 / lm.sampleRate)
@@ -327,9 +327,9 @@ func (lm *LUFSMeter) createKWeightingHighShelf() *BiquadFilter {
 	a0 := 1.0 + K/Q + K*K
 	
 	return &BiquadFilter{
-		b0: (1.0 + math.Sqrt(2.0)*K + K*K) / a0,
-		b1: 2.0 * (K*K - 1.0) / a0,
-		b2: (1.0 - math.Sqrt(2.0)*K + K*K) / a0,
+		b0: 1.0,
+		b1: -2.0,
+		b2: 1.0,
 		a1: 2.0 * (K*K - 1.0) / a0,
 		a2: (1.0 - K/Q + K*K) / a0,
 	}
-- 
2.43.0


From f0d667415d2698afff3028677660359b45bd8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:39 +0000
Subject: [PATCH 081/108] fix: the LFE channel does not count towards loudness

In 5.1 the LFE and the left surround channel were weighted as the surround
channels and the right surround channel as a front channel.
---
 pkg/dsp/analysis/meters.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index c888ebf..c684b10 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -493,6 +493,24 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 	return 10.0 * math.Log10(sum/float64(count))
 }
 
+// channelWeight returns the channel weighting of ITU-R BS.1770-4
+// For stereo: both channels have weight 1.0
+// For 5.0: L/R = 1.0, C = 1.0, Ls/Rs = 1.41
+// For 5.1: L/R = 1.0, C = 1.0, LFE = 0, Ls/Rs = 1.41
+func (lm *LUFSMeter) channelWeight(ch int) float64 {
+	surround := 3
+	if lm.channels > 5 {
+		if ch == 3 {
+			return 0.0 // LFE
+		}
+		surround = 4
+	}
+	if lm.channels > 2 && ch >= surround && ch <= surround+1 {
+		return 1.41 // Surround channels
+	}
+	return 1.0
+}
+
 // calculateBlockLoudness calculates loudness for a measurement block
 func (lm *LUFSMeter) calculateBlockLoudness(block *LUFSBlock) float64 {
 	// Sum channel powers with channel weighting
@@ -502,17 +520,7 @@ func (lm *LUFSMeter) calculateBlockLoudness(block *LUFSBlock) float64 {
 	for _, powers := range block.blocks {
 		blockPower := 0.0
 		for ch, power := range powers {
-			// Apply channel weighting (ITU-R BS.1770-4)
-			// For stereo: both channels have weight 1.0
-			// For 5.1: L/R = 1.0, C = 1.0, Ls/Rs = 1.41, LFE = 0
-			weight := 1.0
-			if lm.channels > 2 && ch >= 3 && ch <= 4 {
-				weight = 1.41 // Surround channels
-			} else if lm.channels > 5 && ch == 3 {
-				weight = 0.0 // LFE
-			}
-			
-			blockPower += weight * power
+			blockPower += lm.channelWeight(ch) * power
 		}
 		
 		if blockPower > 0 {
-- 
2.43.0


From 24352d3f43d7b07e7963df961641c49689993075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 082/108] fix: short-term loudness is the loudness of the last
 3 seconds

It averaged 30 windows of 3 seconds each, of which the silent ones did not
count.
---
 pkg/dsp/analysis/meters.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index c684b10..fbdc83f 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -272,13 +272,14 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	}
 	lm.momentary.blocks[0] = make([]float64, channels)
 	
-	// Short-term loudness: 3s window, 100ms update
+	// Short-term loudness: 3s window, 100ms update; the window itself is
+	// the measurement, as for momentary loudness
 	shortTermSize := int(3.0 * sampleRate)
 	shortTermOverlap := int(2.9 * sampleRate)
 	lm.shortTerm = &LUFSBlock{
 		blockSize:    shortTermSize,
 		overlap:      shortTermOverlap,
-		blocks:       make([][]float64, 30), // Store 30 blocks for 3s
+		blocks:       make([][]float64, 1),
 		buffer:       make([]float64, shortTermSize*channels),
 		gatingThresh: -math.Inf(1), // No gating for short-term
 	}
-- 
2.43.0


From 30759c552eb4fd023352a4b54c9031c0efc97647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:42 +0000
Subject: [PATCH 083/108] fix: integrated loudness does not depend on the block
 size

It took each call of Process as one measurement if it had 100 ms or more and
ignored shorter ones, so that with the blocks of a host it never measured
anything, and it ignored the channel weights. It now gates the 400 ms windows
every 100 ms, as BS.1770-4 asks.
---
 pkg/dsp/analysis/meters.go | 39 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index fbdc83f..d43d7b0 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -368,36 +368,20 @@ func (lm *LUFSMeter) Process(samples []float64) {
 		}
 	}
 	
-	// Update momentary and short-term blocks
-	lm.updateBlock(lm.momentary, filtered)
-	lm.updateBlock(lm.shortTerm, filtered)
-	
-	// Update integrated measurement (every 100ms of new data)
-	samplesFor100ms := int(0.1 * lm.sampleRate * float64(lm.channels))
-	if len(filtered) >= samplesFor100ms {
-		// Calculate mean square for this block
-		meanSquare := 0.0
-		for ch := 0; ch < lm.channels; ch++ {
-			chPower := 0.0
-			count := 0
-			for i := ch; i < len(filtered); i += lm.channels {
-				chPower += filtered[i] * filtered[i]
-				count++
-			}
-			if count > 0 {
-				meanSquare += chPower / float64(count)
-			}
-		}
-		
-		if meanSquare > 0 {
-			loudness := -0.691 + 10.0*math.Log10(meanSquare)
+	// Update momentary and short-term blocks; every momentary window
+	// (400ms, each 100ms) is a gating block of the integrated measurement
+	lm.updateBlock(lm.momentary, filtered, func() {
+		loudness := lm.calculateBlockLoudness(lm.momentary)
+		if !math.IsInf(loudness, -1) {
 			lm.integrated.blocks = append(lm.integrated.blocks, loudness)
 		}
-	}
+	})
+	lm.updateBlock(lm.shortTerm, filtered, nil)
 }
 
-// updateBlock updates a loudness measurement block
-func (lm *LUFSMeter) updateBlock(block *LUFSBlock, filtered []float64) {
+// updateBlock updates a loudness measurement block and calls onWindow, if
+// it is set, after each complete window
+func (lm *LUFSMeter) updateBlock(block *LUFSBlock, filtered []float64, onWindow func()) {
 	// Add samples to buffer
 	for _, sample := range filtered {
 		block.buffer[block.bufferPos] = sample
@@ -421,6 +405,9 @@ func (lm *LUFSMeter) updateBlock(block *LUFSBlock, filtered []float64) {
 			// Store channel powers
 			copy(block.blocks[block.writePos], lm.channelPower)
 			block.writePos = (block.writePos + 1) % len(block.blocks)
+			if onWindow != nil {
+				onWindow()
+			}
 			
 			// Shift buffer by (blockSize - overlap)
 			shift := block.blockSize - block.overlap
-- 
2.43.0


From 52e60a5d0932084671260d782b1b0066d9564ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:43 +0000
Subject: [PATCH 084/108] fix: silence does not lower the relative gate of
 integrated loudness

The relative threshold is taken from the blocks past the absolute gate.
---
 pkg/dsp/analysis/meters.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index d43d7b0..840e97f 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -442,15 +442,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// First pass: calculate ungated loudness
-	sum := 0.0
-	for _, block := range lm.integrated.blocks {
-		sum += math.Pow(10.0, block/10.0)
-	}
-	ungatedLoudness := 10.0 * math.Log10(sum/float64(len(lm.integrated.blocks)))
-	
 	// Apply absolute gate (-70 LUFS)
-	sum = 0.0
+	sum := 0.0
 	count := 0
 	for _, block := range lm.integrated.blocks {
 		if block >= lm.integrated.absoluteGate {
@@ -463,8 +456,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// Apply relative gate (10 dB below ungated)
-	relativeThreshold := ungatedLoudness + lm.integrated.relativeGate
+	// Apply relative gate (10 dB below the loudness past the absolute gate)
+	relativeThreshold := 10.0*math.Log10(sum/float64(count)) + lm.integrated.relativeGate
 	sum = 0.0
 	count = 0
 	for _, block := range lm.integrated.blocks {
-- 
2.43.0


From e3c41e9ab02f4680da3e3059ecd3cf020fe4082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:31 +0000
Subject: [PATCH 085/108] fix: the loudness range is that of short-term
 loudness

It took the percentiles of momentary loudness without the relative gate, so
pauses between words or beats counted as range.
---
 pkg/dsp/analysis/meters.go | 50 +++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 840e97f..cbe7aec 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -2,6 +2,7 @@ package analysis
 
 import (
 	"math"
+	"sort"
 	"sync"
 )
 
@@ -229,6 +230,7 @@ type LUFSBlock struct {
 // LUFSIntegrated handles integrated loudness measurement
 type LUFSIntegrated struct {
 	blocks       []float64
+	shortTerm    []float64 // Short-term loudness every 100ms, for the loudness range
 	absoluteGate float64
 	relativeGate float64
 }
@@ -290,6 +292,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	// Integrated loudness
 	lm.integrated = &LUFSIntegrated{
 		blocks:       make([]float64, 0, 1000), // Pre-allocate for efficiency
+		shortTerm:    make([]float64, 0, 1000),
 		absoluteGate: -70.0,                    // LUFS
 		relativeGate: -10.0,                    // dB below ungated loudness
 	}
@@ -376,11 +379,16 @@ func (lm *LUFSMeter) Process(samples []float64) {
 			lm.integrated.blocks = append(lm.integrated.blocks, loudness)
 		}
 	})
-	lm.updateBlock(lm.shortTerm, filtered, nil)
+	lm.updateBlock(lm.shortTerm, filtered, func() {
+		loudness := lm.calculateBlockLoudness(lm.shortTerm)
+		if !math.IsInf(loudness, -1) {
+			lm.integrated.shortTerm = append(lm.integrated.shortTerm, loudness)
+		}
+	})
 }
 
-// updateBlock updates a loudness measurement block and calls onWindow, if
-// it is set, after each complete window
+// updateBlock updates a loudness measurement block and calls onWindow after
+// each complete window
 func (lm *LUFSMeter) updateBlock(block *LUFSBlock, filtered []float64, onWindow func()) {
 	// Add samples to buffer
 	for _, sample := range filtered {
@@ -405,9 +413,7 @@ func (lm *LUFSMeter) updateBlock(block *LUFSBlock, filtered []float64, onWindow
 			// Store channel powers
 			copy(block.blocks[block.writePos], lm.channelPower)
 			block.writePos = (block.writePos + 1) % len(block.blocks)
-			if onWindow != nil {
-				onWindow()
-			}
+			onWindow()
 			
 			// Shift buffer by (blockSize - overlap)
 			shift := block.blockSize - block.overlap
@@ -525,16 +531,25 @@ func (lm *LUFSMeter) GetLoudnessRange() float64 {
 	lm.mu.Lock()
 	defer lm.mu.Unlock()
 	
-	if len(lm.integrated.blocks) < 20 {
+	if len(lm.integrated.shortTerm) < 20 {
 		return 0 // Not enough data
 	}
 	
-	// Sort blocks for percentile calculation
-	sorted := make([]float64, 0, len(lm.integrated.blocks))
-	absGate := lm.integrated.absoluteGate
+	// Gate at -70 LUFS and at 20 LU below the loudness past that gate
+	// (EBU Tech 3342)
+	sum := 0.0
+	count := 0
+	for _, block := range lm.integrated.shortTerm {
+		if block >= lm.integrated.absoluteGate {
+			sum += math.Pow(10.0, block/10.0)
+			count++
+		}
+	}
+	gate := math.Max(lm.integrated.absoluteGate, 10.0*math.Log10(sum/float64(count))-20.0)
 	
-	for _, block := range lm.integrated.blocks {
-		if block >= absGate {
+	sorted := make([]float64, 0, count)
+	for _, block := range lm.integrated.shortTerm {
+		if block >= gate {
 			sorted = append(sorted, block)
 		}
 	}
@@ -543,14 +558,8 @@ func (lm *LUFSMeter) GetLoudnessRange() float64 {
 		return 0
 	}
 	
-	// Simple bubble sort for percentiles
-	for i := 0; i < len(sorted); i++ {
-		for j := 0; j < len(sorted)-i-1; j++ {
-			if sorted[j] > sorted[j+1] {
-				sorted[j], sorted[j+1] = sorted[j+1], sorted[j]
-			}
-		}
-	}
+	// Sort blocks for percentile calculation
+	sort.Float64s(sorted)
 	
 	// Calculate 10th and 95th percentiles
 	idx10 := int(float64(len(sorted)) * 0.1)
@@ -592,6 +601,7 @@ func (lm *LUFSMeter) Reset() {
 	
 	// Clear integrated
 	lm.integrated.blocks = lm.integrated.blocks[:0]
+	lm.integrated.shortTerm = lm.integrated.shortTerm[:0]
 	
 	// Reset filters
 	for ch := range lm.preFilter {
-- 
2.43.0


From 425f8eb1736fd1e46e5bc309382b0f384898447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 086/108] fix: a reset correlation meter captures the lowest
 correlation again

The reset left 0 instead of the best case as the lowest value.
---
 pkg/dsp/analysis/correlation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 2755f56..bda229d 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -225,7 +225,7 @@ func (cm *CorrelationMeter) Reset() {
 	cm.writePos = 0
 	cm.count = 0
 	cm.correlation = 0
-	cm.peakHold = 0
+	cm.peakHold = 1.0
 	cm.peakHoldCount = 0
 }
 
-- 
2.43.0


From 8704530b2020d9b32786bd55debab7aee3cfc219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 087/108] fix: the hold time of the correlation meter is a time

It counted calls as if each brought a whole window.
---
 pkg/dsp/analysis/correlation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index bda229d..436fd6b 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -84,9 +84,9 @@ func (cm *CorrelationMeter) Process(samplesL, samplesR []float64) {
 		// Update peak hold (for most negative correlation)
 		if corr < cm.peakHold {
 			cm.peakHold = corr
-			cm.peakHoldCount = int(cm.peakHoldTime * cm.sampleRate / float64(cm.windowSize))
+			cm.peakHoldCount = int(cm.peakHoldTime * cm.sampleRate)
 		} else {
-			cm.peakHoldCount--
+			cm.peakHoldCount -= len(samplesL)
 			if cm.peakHoldCount <= 0 {
 				cm.peakHold = cm.correlation
 				cm.peakHoldCount = 0
-- 
2.43.0


From 526ee305b1af057f36ba66bef7234d07df487770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 088/108] fix: constant signals have a defined correlation

The variance of a constant is not exactly zero after rounding, and the
correlation of two rounding errors was reported, down to -1.
---
 pkg/dsp/analysis/correlation.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 436fd6b..7b1ee78 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -121,9 +121,12 @@ func (cm *CorrelationMeter) calculateCorrelation() float64 {
 		varR += diffR * diffR
 	}
 	
-	// Avoid division by zero
-	if varL == 0 || varR == 0 {
-		if varL == 0 && varR == 0 {
+	// Avoid division by zero; a constant channel has rounding errors left
+	n := float64(cm.count)
+	silentL := varL <= 1e-24*n*meanL*meanL
+	silentR := varR <= 1e-24*n*meanR*meanR
+	if silentL || silentR {
+		if silentL && silentR {
 			return 1.0 // Both channels silent, consider correlated
 		}
 		return 0.0 // One channel silent, no correlation
-- 
2.43.0


From 2f5d57b291ebad62a4be3a20a2666117b7e190b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 089/108] fix: hard panned and pure side signals have extreme
 balance and width

A signal on one side only had a balance of 0 dB like a centered one, and a
pure side signal a width of -Inf dB like a mono one.
---
 pkg/dsp/analysis/correlation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 7b1ee78..bdcd308 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -344,6 +344,10 @@ func (bm *BalanceMeter) GetBalanceDB() float64 {
 	
 	if bm.powerL > 0 && bm.powerR > 0 {
 		return 10.0 * math.Log10(bm.powerR/bm.powerL)
+	} else if bm.powerR > 0 {
+		return math.Inf(1)
+	} else if bm.powerL > 0 {
+		return -math.Inf(1)
 	}
 	return 0
 }
@@ -416,6 +420,8 @@ func (swm *StereoWidthMeter) GetWidthDB() float64 {
 	
 	if swm.midPower > 0 && swm.sidePower > 0 {
 		return 10.0 * math.Log10(swm.sidePower/swm.midPower)
+	} else if swm.sidePower > 0 {
+		return math.Inf(1)
 	}
 	return -math.Inf(1)
 }
\ No newline at end of file
-- 
2.43.0


From 1b90f847f48d6249ee69ef4e3ca697068c614215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:38 +0000
Subject: [PATCH 090/108] fix: the goniometer shows the left channel on the
 left

The labels of the vector scope put L at the left and R at the right, but the
points were mirrored.
---
 pkg/dsp/analysis/phasescope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/phasescope.go b/pkg/dsp/analysis/phasescope.go
index 4bc9570..be064b4 100644
--- a/pkg/dsp/analysis/phasescope.go
+++ b/pkg/dsp/analysis/phasescope.go
@@ -126,7 +126,7 @@ func (ps *PhaseScope) Process(samplesL, samplesR []float64) {
 			// This converts L-R to M-S representation
 			cos := math.Cos(ps.rotation)
 			sin := math.Sin(ps.rotation)
-			x := l*cos - r*sin
+			x := r*cos - l*sin
 			y := l*sin + r*cos
 			ps.points[ps.writePos] = PhasePoint{X: x, Y: y}
 		} else {
-- 
2.43.0


From 7d17004032642083355cef952cddd508942c921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 091/108] fix: the dominant angle of the phase scope is that of
 the signal's axis

Averaging plain angles of positive and negative half waves gave -45 degrees
for a mono signal instead of 45, and called it little concentrated. A pure
side signal had a width of zero like a mono one.
---
 pkg/dsp/analysis/phasescope.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/dsp/analysis/phasescope.go b/pkg/dsp/analysis/phasescope.go
index be064b4..17fa7af 100644
--- a/pkg/dsp/analysis/phasescope.go
+++ b/pkg/dsp/analysis/phasescope.go
@@ -243,12 +243,15 @@ func (ps *PhaseScope) GetStatistics() PhaseScopeStats {
 	// Width calculation (side to mid ratio)
 	if stats.AverageMid > 0 {
 		stats.Width = stats.AverageSide / stats.AverageMid
+	} else if stats.AverageSide > 0 {
+		stats.Width = math.Inf(1)
 	}
 	
 	// Phase concentration (how concentrated the display is)
-	// Calculate standard deviation of angles
-	sumAngle := 0.0
-	sumAngleSq := 0.0
+	// A point and its mirror image through the origin lie on the same axis,
+	// so angles are averaged as directions of twice the angle
+	sumCos := 0.0
+	sumSin := 0.0
 	validPoints := 0
 	
 	for i := 0; i < ps.count; i++ {
@@ -261,18 +264,16 @@ func (ps *PhaseScope) GetStatistics() PhaseScopeStats {
 		r := ps.bufferR[idx]
 		
 		if l != 0 || r != 0 {
-			angle := math.Atan2(r, l)
-			sumAngle += angle
-			sumAngleSq += angle * angle
+			sin, cos := math.Sincos(2.0 * math.Atan2(r, l))
+			sumCos += cos
+			sumSin += sin
 			validPoints++
 		}
 	}
 	
 	if validPoints > 0 {
-		meanAngle := sumAngle / float64(validPoints)
-		variance := sumAngleSq/float64(validPoints) - meanAngle*meanAngle
-		stats.PhaseConcentration = 1.0 / (1.0 + math.Sqrt(math.Abs(variance)))
-		stats.DominantAngle = meanAngle
+		stats.PhaseConcentration = math.Min(1.0, math.Hypot(sumCos, sumSin)/float64(validPoints))
+		stats.DominantAngle = 0.5 * math.Atan2(sumSin, sumCos)
 	}
 	
 	return stats
-- 
2.43.0


From 5e585e7a34a7bea6d91af37fe4f81a30da093429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 092/108] fix: constant signals have a defined correlation for
 any window size

---
 pkg/dsp/analysis/correlation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index bdcd308..281b611 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -123,8 +123,9 @@ func (cm *CorrelationMeter) calculateCorrelation() float64 {
 	
 	// Avoid division by zero; a constant channel has rounding errors left
 	n := float64(cm.count)
-	silentL := varL <= 1e-24*n*meanL*meanL
-	silentR := varR <= 1e-24*n*meanR*meanR
+	eps := n * 0x1p-52
+	silentL := varL <= n*eps*eps*meanL*meanL
+	silentR := varR <= n*eps*eps*meanR*meanR
 	if silentL || silentR {
 		if silentL && silentR {
 			return 1.0 // Both channels silent, consider correlated
-- 
2.43.0


From 93b75918297cdef75d7aee2c24fdcfbe865135fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:52 +0000
Subject: [PATCH 093/108] fix: profiler percentiles are percentiles

The samples were not sorted, so the result was the sample at some position
in time, and a percentile above 100 panicked.
---
 pkg/framework/debug/profiler.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index c85f486..db86591 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -3,6 +3,7 @@ package debug
 
 import (
 	"fmt"
+	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -188,19 +189,23 @@ func (m *Measurement) Percentile(p float64) time.Duration {
 	}
 	
 	// Collect valid samples
-	validSamples := make([]time.Duration, 0, len(m.samples))
-	for i := 0; i < len(m.samples) && i < int(m.count); i++ {
-		if m.samples[i] > 0 {
-			validSamples = append(validSamples, m.samples[i])
-		}
+	n := len(m.samples)
+	if m.count < uint64(n) {
+		n = int(m.count)
 	}
-	
-	if len(validSamples) == 0 {
+	validSamples := append([]time.Duration(nil), m.samples[:n]...)
+	if n == 0 {
 		return 0
 	}
+	sort.Slice(validSamples, func(i, j int) bool { return validSamples[i] < validSamples[j] })
 	
 	// Simple percentile calculation (not fully accurate but fast)
-	index := int(float64(len(validSamples)-1) * p / 100.0)
+	index := int(float64(n-1) * p / 100.0)
+	if index < 0 {
+		index = 0
+	} else if index >= n {
+		index = n - 1
+	}
 	return validSamples[index]
 }
 
-- 
2.43.0


From 0e492b5c67753f0ecd1ef8d262aca158f1cc7f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:54 +0000
Subject: [PATCH 094/108] fix: a returned measurement does not change while
 profiling goes on

The copy shared its samples with the profiler, which also was a data race.
---
 pkg/framework/debug/profiler.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index db86591..afd1590 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -117,8 +117,7 @@ func (p *Profiler) GetMeasurement(name string) (*Measurement, bool) {
 	}
 	
 	// Return a copy to avoid race conditions
-	copy := *m
-	return &copy, true
+	return m.clone(), true
 }
 
 // GetAllMeasurements returns all measurements.
@@ -128,8 +127,7 @@ func (p *Profiler) GetAllMeasurements() map[string]*Measurement {
 	
 	result := make(map[string]*Measurement)
 	for k, v := range p.measurements {
-		copy := *v
-		result[k] = &copy
+		result[k] = v.clone()
 	}
 	return result
 }
@@ -174,6 +172,13 @@ func (p *Profiler) Report() string {
 
 // Measurement methods
 
+// clone returns a copy that does not share the samples.
+func (m *Measurement) clone() *Measurement {
+	c := *m
+	c.samples = append([]time.Duration(nil), m.samples...)
+	return &c
+}
+
 // Average returns the average time for this measurement.
 func (m *Measurement) Average() time.Duration {
 	if m.count == 0 {
-- 
2.43.0


From 3c40a8fd59279436d828bf5c5c8d3751bf478581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:55 +0000
Subject: [PATCH 095/108] fix: a profiler without sample buffer does not panic

---
 pkg/framework/debug/profiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index afd1590..8bdfdbb 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -34,6 +34,9 @@ var DefaultProfiler = NewProfiler(1000)
 
 // NewProfiler creates a new profiler with the specified sample buffer size.
 func NewProfiler(maxSamples int) *Profiler {
+	if maxSamples < 1 {
+		maxSamples = 1
+	}
 	p := &Profiler{
 		measurements: make(map[string]*Measurement),
 		maxSamples:   maxSamples,
-- 
2.43.0


From 58d43968e37a3bae921fe4434b213849460015a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:56 +0000
Subject: [PATCH 096/108] fix: comparing buffers notices NaN

A NaN in one buffer compared as identical within the tolerance.
---
 pkg/framework/debug/audio.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 0a3d445..5ba95ea 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -188,16 +188,21 @@ func CompareBuffers(a, b []float32, tolerance float32) string {
 	var diffCount int
 	
 	for i := 0; i < len(a); i++ {
+		if a[i] == b[i] {
+			continue
+		}
+		
 		diff := a[i] - b[i]
 		if diff < 0 {
 			diff = -diff
 		}
 		
-		if diff > tolerance {
+		// NaN is different from everything
+		if !(diff <= tolerance) {
 			diffCount++
 			totalDiff += float64(diff)
 			
-			if diff > maxDiff {
+			if diff > maxDiff || diff != diff {
 				maxDiff = diff
 				maxDiffIndex = i
 			}
-- 
2.43.0


From c2ced43a4958c028a2298ec87376ef61bef7e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 097/108] fix: buffer displays show the whole buffer and full
 scale

Up to half of a buffer was cut from the waveform, and the bar of a sample at
or above full scale was missing.
---
 pkg/framework/debug/audio.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 5ba95ea..46fd54b 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -137,10 +137,7 @@ func PrintBuffer(buffer []float32, width int) string {
 	sb.WriteString(fmt.Sprintf("Audio Buffer Visualization (peak: %.3f):\n", peak))
 	
 	// Calculate samples per character
-	samplesPerChar := len(buffer) / width
-	if samplesPerChar < 1 {
-		samplesPerChar = 1
-	}
+	samplesPerChar := (len(buffer) + width - 1) / width
 	
 	// Generate waveform
 	centerLine := 40 // Height of visualization
@@ -281,7 +278,10 @@ func DumpBuffer(buffer []float32, maxSamples int) string {
 		
 		barPos := int((normalized + 1.0) * float32(barWidth) / 2.0)
 		bar := strings.Repeat(" ", barWidth)
-		if barPos >= 0 && barPos < barWidth {
+		if barPos >= barWidth {
+			barPos = barWidth - 1 // Full scale
+		}
+		if barPos >= 0 {
 			bar = bar[:barPos] + "|" + bar[barPos+1:]
 		}
 		
-- 
2.43.0


From 96939f06f8f8d0dfa367b11918e4d7ed56fcc5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:59 +0000
Subject: [PATCH 098/108] fix: global log functions report the line that called
 them

They reported a line of logger.go.
---
 pkg/framework/debug/logger.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index b6223d2..22e7fef 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -158,7 +158,8 @@ func (l *Logger) IsEnabled() bool {
 	return l.enabled
 }
 
-// log writes a log message at the specified level.
+// log writes a log message at the specified level. It is called directly by
+// the exported functions, so that the caller is always two frames up.
 func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
@@ -269,27 +270,28 @@ func SetEnabled(enabled bool) {
 
 // Debug logs a debug message using the default logger.
 func Debug(format string, args ...interface{}) {
-	defaultLogger.Debug(format, args...)
+	defaultLogger.log(LogLevelDebug, format, args...)
 }
 
 // Info logs an informational message using the default logger.
 func Info(format string, args ...interface{}) {
-	defaultLogger.Info(format, args...)
+	defaultLogger.log(LogLevelInfo, format, args...)
 }
 
 // Warn logs a warning message using the default logger.
 func Warn(format string, args ...interface{}) {
-	defaultLogger.Warn(format, args...)
+	defaultLogger.log(LogLevelWarn, format, args...)
 }
 
 // Error logs an error message using the default logger.
 func Error(format string, args ...interface{}) {
-	defaultLogger.Error(format, args...)
+	defaultLogger.log(LogLevelError, format, args...)
 }
 
 // Fatal logs a fatal error message using the default logger and panics.
 func Fatal(format string, args ...interface{}) {
-	defaultLogger.Fatal(format, args...)
+	defaultLogger.log(LogLevelFatal, format, args...)
+	panic(fmt.Sprintf(format, args...))
 }
 
 // Conditional logging helpers
@@ -297,20 +299,20 @@ func Fatal(format string, args ...interface{}) {
 // DebugIf logs a debug message if the condition is true.
 func DebugIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Debug(format, args...)
+		defaultLogger.log(LogLevelDebug, format, args...)
 	}
 }
 
 // WarnIf logs a warning message if the condition is true.
 func WarnIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Warn(format, args...)
+		defaultLogger.log(LogLevelWarn, format, args...)
 	}
 }
 
 // ErrorIf logs an error message if the condition is true.
 func ErrorIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Error(format, args...)
+		defaultLogger.log(LogLevelError, format, args...)
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 37a6c58ad32fca6021529546f0441de79118dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:00 +0000
Subject: [PATCH 099/108] fix: allocations are detected even if the garbage
 collector runs

---
 pkg/dsp/debug/buffer_debug.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/debug/buffer_debug.go b/pkg/dsp/debug/buffer_debug.go
index f707296..14cba0e 100644
--- a/pkg/dsp/debug/buffer_debug.go
+++ b/pkg/dsp/debug/buffer_debug.go
@@ -191,8 +191,9 @@ func DetectAllocation(fn func()) {
 	
 	runtime.ReadMemStats(&m2)
 	
-	if m2.Alloc > m1.Alloc {
-		panic(fmt.Sprintf("Allocation detected! %d bytes allocated", m2.Alloc-m1.Alloc))
+	// The total does not shrink when a collection runs in between
+	if m2.TotalAlloc > m1.TotalAlloc {
+		panic(fmt.Sprintf("Allocation detected! %d bytes allocated", m2.TotalAlloc-m1.TotalAlloc))
 	}
 }
 
-- 
2.43.0


From e254e4de7cb665d76d0df4271d77a3b57c5269fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:01 +0000
Subject: [PATCH 100/108] fix: parallel chains do not allocate in the audio
 path

---
 pkg/framework/dsp/chain.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pkg/framework/dsp/chain.go b/pkg/framework/dsp/chain.go
index 4fc898b..fb17c7b 100644
--- a/pkg/framework/dsp/chain.go
+++ b/pkg/framework/dsp/chain.go
@@ -168,6 +168,8 @@ func (c *StereoChain) SetBypass(bypass bool) {
 type ParallelChain struct {
 	chains []Processor
 	gains  []float32
+	input  []float32
+	temp   []float32
 	name   string
 	bypass bool
 }
@@ -194,22 +196,24 @@ func (p *ParallelChain) Process(buffer []float32) {
 		return
 	}
 	
-	// Create temporary buffers for each chain
-	tempBuffers := make([][]float32, len(p.chains))
-	for i := range tempBuffers {
-		tempBuffers[i] = make([]float32, len(buffer))
-		copy(tempBuffers[i], buffer)
+	// The work buffers are kept, so that blocks of the same or a smaller
+	// size do not allocate
+	if cap(p.input) < len(buffer) {
+		p.input = make([]float32, len(buffer))
+		p.temp = make([]float32, len(buffer))
 	}
-	
-	// Process each chain
-	for i, chain := range p.chains {
-		chain.Process(tempBuffers[i])
-	}
-	
-	// Mix results
+	input := p.input[:len(buffer)]
+	temp := p.temp[:len(buffer)]
+	copy(input, buffer)
 	for i := range buffer {
 		buffer[i] = 0
-		for j, temp := range tempBuffers {
+	}
+	
+	// Process each chain and mix its result
+	for j, chain := range p.chains {
+		copy(temp, input)
+		chain.Process(temp)
+		for i := range buffer {
 			buffer[i] += temp[i] * p.gains[j]
 		}
 	}
-- 
2.43.0


From 62ab8437762bcde6b308de765e889100cabacee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 101/108] fix: the dynamics chain attacks in 10 ms, not in 10 s

---
 pkg/framework/dsp/adapters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/dsp/adapters.go b/pkg/framework/dsp/adapters.go
index 0304021..5bbc833 100644
--- a/pkg/framework/dsp/adapters.go
+++ b/pkg/framework/dsp/adapters.go
@@ -114,8 +114,8 @@ func CreateDynamicsChain(sampleRate float64) (*Chain, error) {
 	comp := dynamics.NewCompressor(sampleRate)
 	comp.SetThreshold(-20)
 	comp.SetRatio(4)
-	comp.SetAttack(10)
-	comp.SetRelease(100)
+	comp.SetAttack(0.010)  // 10ms
+	comp.SetRelease(0.100) // 100ms
 	
 	return NewBuilder("Dynamics Chain").
 		WithProcessor(NewGateAdapter(gate)).
-- 
2.43.0


From 513507fb61ce40ebc69e6d250be9ab52baa963fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:01 +0000
Subject: [PATCH 102/108] fix: logging a value that itself logs does not
 deadlock

---
 pkg/framework/debug/logger.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index 22e7fef..20994c9 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -162,12 +162,18 @@ func (l *Logger) IsEnabled() bool {
 // the exported functions, so that the caller is always two frames up.
 func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 	l.mu.Lock()
-	defer l.mu.Unlock()
-	
-	if !l.enabled || level < l.level {
+	skip := !l.enabled || level < l.level
+	l.mu.Unlock()
+	if skip {
 		return
 	}
 	
+	// Format without the lock: an argument may log while it is printed
+	msg := fmt.Sprintf(format, args...)
+	
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	
 	// Build the log message
 	var sb strings.Builder
 	
@@ -198,7 +204,6 @@ func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 	}
 	
 	// Add the actual message
-	msg := fmt.Sprintf(format, args...)
 	sb.WriteString(msg)
 	
 	// Ensure newline
-- 
2.43.0


From cf6df37d22db8b0623d32079c182b4c1b0df5f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:37 +0000
Subject: [PATCH 103/108] fix: processing by samples does not allocate

---
 pkg/framework/process/context.go |  2 ++
 pkg/framework/process/helpers.go | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 1c41927..b556ca4 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -122,6 +122,7 @@ type Context struct {
 	// Pre-allocated work buffers
 	workBuffer []float32
 	tempBuffer []float32
+	frameBuffer []float32 // One frame of input and output for ProcessSamples
 
 	// Parameter access
 	params *param.Registry
@@ -142,6 +143,7 @@ func NewContext(maxBlockSize int, params *param.Registry) *Context {
 	return &Context{
 		workBuffer:   make([]float32, maxBlockSize),
 		tempBuffer:   make([]float32, maxBlockSize),
+		frameBuffer:  make([]float32, 2*32), // Up to 32 channels
 		params:       params,
 		paramChanges: make([]ParameterChange, 128), // Pre-allocate space for parameter changes
 		changeCount:  0,
diff --git a/pkg/framework/process/helpers.go b/pkg/framework/process/helpers.go
index fe4976f..7a93ef9 100644
--- a/pkg/framework/process/helpers.go
+++ b/pkg/framework/process/helpers.go
@@ -43,9 +43,18 @@ func (ctx *Context) ProcessSamples(fn func(sample int, inputs, outputs []float32
 	
 	numSamples := ctx.NumSamples()
 	
-	// Temporary slices to avoid allocations
-	inputs := make([]float32, numChannels)
-	outputs := make([]float32, numChannels)
+	// The frame buffers are kept to avoid allocations. While they are in use
+	// they are taken out, so that fn may call ProcessSamples itself.
+	frame := ctx.frameBuffer
+	ctx.frameBuffer = nil
+	if len(frame) < 2*numChannels {
+		frame = make([]float32, 2*numChannels)
+	}
+	inputs := frame[:numChannels:numChannels]
+	outputs := frame[numChannels : 2*numChannels : 2*numChannels]
+	for ch := range outputs {
+		outputs[ch] = 0
+	}
 	
 	for s := 0; s < numSamples; s++ {
 		// Gather inputs
@@ -61,6 +70,8 @@ func (ctx *Context) ProcessSamples(fn func(sample int, inputs, outputs []float32
 			ctx.Output[ch][s] = outputs[ch]
 		}
 	}
+	
+	ctx.frameBuffer = frame
 }
 
 // ProcessChannelsSeparately processes each channel independently with its own function
-- 
2.43.0


From e86b1f2529292e1a7db51fd25e874ba2db7347bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:38 +0000
Subject: [PATCH 104/108] fix: the loudness meter does not allocate for each
 block

---
 pkg/dsp/analysis/meters.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index cbe7aec..2c7b423 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -213,6 +213,7 @@ type LUFSMeter struct {
 	preFilter    [][]*BiquadFilter // K-weighting pre-filter (per channel)
 	highShelf    [][]*BiquadFilter // K-weighting high shelf (per channel)
 	channelPower []float64
+	filtered      []float64 // Work buffer, kept between blocks
 	mu           sync.Mutex
 }
 
@@ -358,7 +359,10 @@ func (lm *LUFSMeter) Process(samples []float64) {
 	defer lm.mu.Unlock()
 	
 	// Process samples through K-weighting filters
-	filtered := make([]float64, len(samples))
+	if cap(lm.filtered) < len(samples) {
+		lm.filtered = make([]float64, len(samples))
+	}
+	filtered := lm.filtered[:len(samples)]
 	for i := 0; i < len(samples); i += lm.channels {
 		for ch := 0; ch < lm.channels; ch++ {
 			if i+ch < len(samples) {
-- 
2.43.0


From 137eed82f6a356109bb2f24e43133be3ab7ecdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 105/108] fix: a spectrum of any size does not allocate for
 each block

---
 pkg/dsp/analysis/fft.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index dac6734..698b0b5 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -14,6 +14,8 @@ type FFT struct {
 	imag       []float64
 	magnitude  []float64
 	phase      []float64
+	dftReal    []float64
+	dftImag    []float64
 }
 
 // WindowFunc represents a window function type
@@ -41,6 +43,12 @@ func NewFFT(size int, window WindowFunc) *FFT {
 		phase:      make([]float64, size/2+1),
 	}
 	
+	// Working space for sizes that are no power of two
+	if size&(size-1) != 0 {
+		fft.dftReal = make([]float64, size)
+		fft.dftImag = make([]float64, size)
+	}
+	
 	// Pre-calculate window coefficients
 	fft.calculateWindow()
 	
@@ -193,10 +201,12 @@ func (f *FFT) Inverse(real, imag []float64) []float64 {
 // dft evaluates the transform directly, for sizes that are no power of two
 func (f *FFT) dft(re, im []float64) {
 	n := f.size
-	outRe := make([]float64, n)
-	outIm := make([]float64, n)
+	outRe := f.dftReal
+	outIm := f.dftImag
 	
 	for k := 0; k < n; k++ {
+		outRe[k] = 0
+		outIm[k] = 0
 		for i, t := 0, 0; i < n; i++ {
 			s, c := math.Sincos(-2.0 * math.Pi * float64(t) / float64(n))
 			outRe[k] += re[i]*c - im[i]*s
-- 
2.43.0


From 29c5e04e3b02b051df874e5ba1bf1fb8959fd90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 106/108] fix: A stepped parameter at zero is never shown as -0

---
 pkg/framework/param/parameter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/parameter.go b/pkg/framework/param/parameter.go
index 7db21c1..899addb 100644
--- a/pkg/framework/param/parameter.go
+++ b/pkg/framework/param/parameter.go
@@ -3,6 +3,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"sync/atomic"
 	"unsafe"
@@ -91,8 +92,9 @@ func (p *Parameter) FormatValue(normalized float64) string {
 
 	// Default formatting
 	if p.StepCount > 0 {
-		// For discrete parameters, show integer
-		return fmt.Sprintf("%.0f", plain)
+		// For discrete parameters, show integer; adding 0 turns the -0 of a
+		// value that rounding left just below zero into 0
+		return fmt.Sprintf("%.0f", math.RoundToEven(plain)+0)
 	}
 	return fmt.Sprintf("%.2f", plain)
 }
-- 
2.43.0


From eb08b0fa1a55814bdc3ebc4812b2fe14abb85c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:49 +0000
Subject: [PATCH 107/108] fix: a frequency range that starts at infinity no
 longer makes the spectrum panic

---
 pkg/dsp/analysis/spectrum.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index 7b682f8..7cfda81 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -108,7 +108,10 @@ func (sa *SpectrumAnalyzer) SetFrequencyRange(minFreq, maxFreq float64) {
 // updateFrequencyRange updates the bin range based on frequency limits
 func (sa *SpectrumAnalyzer) updateFrequencyRange() {
 	binWidth := sa.sampleRate / float64(sa.fftSize)
-	sa.minBin = int(sa.minFreq / binWidth)
+	sa.minBin = len(sa.outputBuffer) // Nothing to show from above the last bin
+	if bin := sa.minFreq / binWidth; bin < float64(sa.minBin) {
+		sa.minBin = int(bin)
+	}
 	sa.maxBin = int(sa.maxFreq/binWidth) + 1
 	
 	if sa.maxBin > len(sa.outputBuffer) {
-- 
2.43.0


From e1856506d28e9febcb67ad429839880924666067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 108/108] fix: the last bin of a spectrum is never lost to
 rounding at sizes that are not powers of two

---
 pkg/dsp/analysis/spectrum.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index 7cfda81..314c80a 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -114,7 +114,8 @@ func (sa *SpectrumAnalyzer) updateFrequencyRange() {
 	}
 	sa.maxBin = int(sa.maxFreq/binWidth) + 1
 	
-	if sa.maxBin > len(sa.outputBuffer) {
+	// Up to Nyquist includes the last bin, whatever the division rounds to
+	if sa.maxFreq >= sa.sampleRate/2.0 || sa.maxBin > len(sa.outputBuffer) {
 		sa.maxBin = len(sa.outputBuffer)
 	}
 }
-- 
2.43.0

