From 7f584cf3c3579324ed3f2b8a8642bdf4271e7ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 01/28] fix: look objects up by their newest xref entry, of
 whatever kind

Free entries and redefinitions across tables, xref streams and object
streams were merged separately, tables beyond 10 KB were cut off, single
objects were looked up through the first startxref, and keywords inside
strings or stream data ended an object early.
---
 core/parse/api.go           |  20 ++-
 core/parse/get_object.go    | 168 +++++++----------------
 core/parse/incremental.go   | 159 ++++++++--------------
 core/parse/object_stream.go | 258 ++++++++++++++++++------------------
 core/parse/scan.go          | 252 +++++++++++++++++++++++++++++++++++
 5 files changed, 506 insertions(+), 351 deletions(-)
 create mode 100644 core/parse/scan.go

diff --git a/core/parse/api.go b/core/parse/api.go
index 5e78d64..00d601e 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -145,12 +145,23 @@ func (p *PDF) parseBytePerfect() error {
 
 	// Build unified xref from document revisions
 	for _, rev := range doc.Revisions {
+		// A newer entry replaces whatever an older revision said of the object
+		for _, entry := range rev.XRef.Entries {
+			delete(p.xref.Objects, entry.ObjectNum)
+			if entry.InObjectStream {
+				p.xref.Objects[entry.ObjectNum] = &ObjectRef{
+					Number:       entry.ObjectNum,
+					InStream:     true,
+					StreamObjNum: entry.StreamObjNum,
+					StreamIndex:  entry.IndexInStream,
+				}
+			}
+		}
 		for objNum, obj := range rev.Objects {
 			p.xref.Objects[objNum] = &ObjectRef{
 				Number:     obj.Number,
 				Generation: obj.Generation,
 				Offset:     obj.Offset,
-				InStream:   false, // Raw objects are always direct in this mode
 			}
 		}
 		if rev.Trailer != nil && rev.Trailer.Size > p.xref.Size {
@@ -288,6 +299,9 @@ func (p *PDF) GetObject(objNum int) ([]byte, error) {
 
 	if ref.InStream {
 		// Object is in an object stream - extract it
+		if stream, ok := p.xref.Objects[ref.StreamObjNum]; ok && !stream.InStream {
+			return getObjectFromStreamAt(p.raw, objNum, ref.StreamObjNum, stream.Offset, ref.StreamIndex, p.encryption, p.opts.Verbose)
+		}
 		return GetObjectFromStream(p.raw, objNum, ref.StreamObjNum, ref.StreamIndex, p.encryption, p.opts.Verbose)
 	}
 
@@ -303,8 +317,8 @@ func (p *PDF) GetRawObject(objNum int) (*PDFRawObject, error) {
 	}
 
 	// Search all revisions (newest first for most recent version)
-	for i := len(p.doc.Revisions) - 1; i >= 0; i-- {
-		if obj, ok := p.doc.Revisions[i].Objects[objNum]; ok {
+	if ref, ok := p.xref.Objects[objNum]; ok && !ref.InStream {
+		if obj := p.doc.GetObject(objNum); obj != nil {
 			return obj, nil
 		}
 	}
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index cd95cd7..550f290 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -24,66 +24,36 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 	// ALWAYS use xref table first - it's the authoritative source
 	// Direct search using bytes.Index is dangerous because "5 0 obj" matches inside "265 0 obj"
 
-	// Parse xref to find object
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
-	if startxrefMatch == nil {
-		return nil, fmt.Errorf("startxref not found")
-	}
-
-	startXRef, err := strconv.ParseInt(startxrefMatch[1], 10, 64)
-	if err != nil || startXRef <= 0 {
-		return nil, fmt.Errorf("invalid startxref: %s", startxrefMatch[1])
-	}
-
-	// Bounds check
-	if startXRef >= int64(len(pdfBytes)) {
-		return nil, fmt.Errorf("startxref offset %d is beyond PDF length %d", startXRef, len(pdfBytes))
-	}
-
-	// Determine if this is a traditional xref or xref stream
-	xrefSection := pdfBytes[startXRef:]
-
-	// Check if it's an xref stream (PDF 1.5+)
-	// Xref streams start with "N 0 obj" instead of "xref"
-	if bytes.Contains(xrefSection[:min(100, len(xrefSection))], []byte("obj")) {
-		// It's an xref stream - use full parsing
-		result, err := ParseXRefStreamFull(pdfBytes, startXRef, verbose)
-		if err != nil {
+	// Parse the xref sections of all revisions, newest definition first
+	result, err := parseWithIncrementalUpdates(pdfBytes, verbose)
+	if err != nil {
+		if verbose {
+			log.Printf("Failed to parse xref: %v", err)
+		}
+	} else {
+		// Check if object is in object stream
+		if entry, ok := result.ObjectStreams[objNum]; ok {
 			if verbose {
-				log.Printf("Failed to parse xref stream: %v", err)
-			}
-		} else {
-			// Check if object is in object stream
-			if entry, ok := result.ObjectStreams[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d is in object stream %d at index %d", objNum, entry.StreamObjNum, entry.IndexInStream)
-				}
-				return &ObjectLocation{
-					IsDirect:      false,
-					StreamObjNum:  entry.StreamObjNum,
-					IndexInStream: entry.IndexInStream,
-				}, nil
+				log.Printf("Object %d is in object stream %d at index %d", objNum, entry.StreamObjNum, entry.IndexInStream)
 			}
+			return &ObjectLocation{
+				IsDirect:      false,
+				StreamObjNum:  entry.StreamObjNum,
+				IndexInStream: entry.IndexInStream,
+			}, nil
+		}
 
-			// Check regular objects
-			if offset, ok := result.Objects[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d at byte offset %d (from xref stream)", objNum, offset)
-				}
-				return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
+		// Check regular objects
+		if offset, ok := result.Objects[objNum]; ok {
+			if verbose {
+				log.Printf("Object %d at byte offset %d (from xref)", objNum, offset)
 			}
+			return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
 		}
-	} else if bytes.HasPrefix(xrefSection, []byte("xref")) {
-		// Traditional xref table
-		objMap, err := ParseTraditionalXRefTable(pdfBytes, startXRef)
-		if err == nil {
-			if offset, ok := objMap[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d at byte offset %d (from traditional xref)", objNum, offset)
-				}
-				return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
-			}
+
+		// An object the newest revision freed is gone, whatever older bytes remain
+		if result.Free[objNum] {
+			return nil, fmt.Errorf("object %d is free", objNum)
 		}
 	}
 
@@ -147,8 +117,8 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	if headerMatch == nil {
 		// Header not exactly at offset - try to find it nearby
 		searchArea := pdfBytes[max(0, int(offset)-100):min(len(pdfBytes), int(offset)+100)]
-		pattern := regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum))
-		match := pattern.FindIndex(searchArea)
+		pattern := regexp.MustCompile(fmt.Sprintf(`(?:^|[^0-9])(%d\s+\d+\s+obj)`, objNum))
+		match := pattern.FindSubmatchIndex(searchArea)
 		if match == nil {
 			if verbose {
 				log.Printf("Object %d header not found near offset %d", objNum, offset)
@@ -157,7 +127,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 			genNum = 0
 		} else {
 			// Adjust offset
-			newOffset := max(0, int(offset)-100) + match[0]
+			newOffset := max(0, int(offset)-100) + match[2]
 			offset = int64(newOffset)
 			objData = pdfBytes[offset:]
 			headerMatch = headerPattern.FindSubmatch(objData[:min(50, len(objData))])
@@ -169,74 +139,36 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		genNum, _ = strconv.Atoi(string(headerMatch[1]))
 	}
 
-	// Find endobj
-	endobjPos := bytes.Index(objData, []byte("endobj"))
-	if endobjPos == -1 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
-	}
-
-	// Extract content between header and endobj
-	// Skip past "N G obj" to get to the content
-	contentStart := bytes.Index(objData[:endobjPos], []byte("obj"))
-	if contentStart == -1 {
-		contentStart = 0
-	} else {
-		contentStart += 3 // Skip "obj"
-		// Skip whitespace
-		for contentStart < endobjPos && (objData[contentStart] == ' ' || objData[contentStart] == '\n' || objData[contentStart] == '\r' || objData[contentStart] == '\t') {
-			contentStart++
+	// Find where the object's content ends. Keywords inside strings and stream
+	// data do not count; damaged objects end at the first endobj.
+	ext, ok := findObjectExtent(objData)
+	if !ok {
+		endobjPos := bytes.Index(objData, []byte("endobj"))
+		if endobjPos == -1 {
+			return nil, fmt.Errorf("endobj not found for object %d", objNum)
+		}
+		ext = &objectExtent{bodyEnd: endobjPos}
+		if objIdx := bytes.Index(objData[:endobjPos], []byte("obj")); objIdx != -1 {
+			ext.bodyStart = objIdx + len("obj")
+			for ext.bodyStart < endobjPos && isWhitespace(objData[ext.bodyStart]) {
+				ext.bodyStart++
+			}
 		}
 	}
 
-	content := objData[contentStart:endobjPos]
+	content := objData[ext.bodyStart:ext.bodyEnd]
 
-	// Check if this is a stream object
-	streamStart := bytes.Index(content, []byte("stream"))
-	if streamStart != -1 {
-		// This is a stream object
-		// Find "endstream" to get the full stream
-		endstreamPos := bytes.Index(content, []byte("endstream"))
-		if endstreamPos == -1 {
-			endstreamPos = len(content)
-		}
-		content = content[:endstreamPos+len("endstream")]
+	if ext.isStream {
+		// This is a stream object: keep everything up to "endstream"
+		content = objData[ext.bodyStart : ext.endstream+len("endstream")]
 
 		// Decrypt stream data if needed
 		if encryptInfo != nil {
-			// Get /Length from dictionary for exact stream data size
-			dictPart := content[:streamStart]
-			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-			lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-			var streamLength int
-			if lengthMatch != nil {
-				streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-			}
-
-			// Find actual stream data (after "stream\r\n" or "stream\n")
-			streamDataStart := streamStart + 6
-			// Skip exactly one EOL per PDF spec
-			if streamDataStart < len(content) && content[streamDataStart] == '\r' {
-				streamDataStart++
-			}
-			if streamDataStart < len(content) && content[streamDataStart] == '\n' {
-				streamDataStart++
-			}
-
-			// Use /Length if available, otherwise find endstream
-			var streamData []byte
-			if streamLength > 0 && streamDataStart+streamLength <= len(content) {
-				streamData = content[streamDataStart : streamDataStart+streamLength]
-			} else {
-				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
-				if streamDataEnd == -1 {
-					streamDataEnd = len(content) - streamDataStart
-				}
-				streamData = content[streamDataStart : streamDataStart+streamDataEnd]
-			}
+			dictPart := objData[ext.bodyStart:ext.keyword]
+			streamData := objData[ext.streamStart:ext.streamEnd]
 
 			if verbose {
-				log.Printf("Decrypting stream: %d bytes (from /Length %d), objNum=%d, genNum=%d", len(streamData), streamLength, objNum, genNum)
+				log.Printf("Decrypting stream: %d bytes, objNum=%d, genNum=%d", len(streamData), objNum, genNum)
 			}
 			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
 			if err == nil {
@@ -245,7 +177,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 				}
 				// Update /Length in the dictionary to reflect decrypted size
 				newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
-				dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
+				dictPart = directLengthPattern.ReplaceAll(dictPart, []byte(newLength))
 
 				// Reconstruct content with updated dictionary and decrypted stream
 				newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 22737ba..aac6f12 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -14,6 +14,7 @@ type xrefSection struct {
 	StartXRef int64                     // Byte offset where this xref section starts
 	Objects   map[int]int64             // Object number -> byte offset (Type 1 entries)
 	Streams   map[int]ObjectStreamEntry // Object number -> object stream info (Type 2 entries)
+	Free      map[int]bool              // Object numbers this section marks free (Type 0 entries)
 	Prev      int64                     // Offset of previous xref section (from /Prev in trailer)
 	Root      string                    // /Root reference from trailer
 	Info      string                    // /Info reference from trailer
@@ -27,6 +28,7 @@ type incrementalParser struct {
 	sections      []*xrefSection            // Ordered from oldest to newest
 	mergedObjs    map[int]int64             // Final merged object map
 	mergedStreams map[int]ObjectStreamEntry // Final merged object stream entries
+	mergedFree    map[int]bool              // Objects whose newest entry is free
 	verbose       bool
 }
 
@@ -37,6 +39,7 @@ func newIncrementalParser(pdfBytes []byte, verbose bool) *incrementalParser {
 		sections:      make([]*xrefSection, 0),
 		mergedObjs:    make(map[int]int64),
 		mergedStreams: make(map[int]ObjectStreamEntry),
+		mergedFree:    make(map[int]bool),
 		verbose:       verbose,
 	}
 }
@@ -78,6 +81,7 @@ func (p *incrementalParser) getFullXRefResult() *XRefResult {
 	return &XRefResult{
 		Objects:       p.mergedObjs,
 		ObjectStreams: p.mergedStreams,
+		Free:          p.mergedFree,
 	}
 }
 
@@ -110,11 +114,12 @@ func (p *incrementalParser) findLastStartXRef() (int64, error) {
 
 	searchSection := pdfStr[searchStart:lastEOF]
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
+	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
 
-	if match == nil {
+	if len(matches) == 0 {
 		return 0, fmt.Errorf("startxref not found before %%EOF")
 	}
+	match := matches[len(matches)-1]
 
 	offset, err := strconv.ParseInt(match[1], 10, 64)
 	if err != nil {
@@ -182,7 +187,7 @@ func (p *incrementalParser) parseXRefChain(startXRef int64) error {
 
 // findPrevOffset finds the /Prev value in the trailer at the given xref offset
 func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
-	if startXRef >= int64(len(p.pdfBytes)) {
+	if startXRef < 0 || startXRef >= int64(len(p.pdfBytes)) {
 		return 0, fmt.Errorf("startXRef out of bounds")
 	}
 
@@ -196,33 +201,12 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 			return 0, fmt.Errorf("no trailer found")
 		}
 
-		// Find the end of the trailer dictionary (>>)
-		trailerStart := trailerIdx + 7 // len("trailer")
-		dictStart := bytes.Index(section[trailerStart:], []byte("<<"))
-		if dictStart == -1 {
+		dict := dictAt(section, trailerIdx)
+		if dict == nil {
 			return 0, fmt.Errorf("trailer dictionary not found")
 		}
-		dictStart += trailerStart
-
-		// Find matching >> for trailer dict
-		depth := 1
-		dictEnd := dictStart + 2
-		for dictEnd < len(section) && depth > 0 {
-			if dictEnd+1 < len(section) && section[dictEnd] == '<' && section[dictEnd+1] == '<' {
-				depth++
-				dictEnd++
-			} else if dictEnd+1 < len(section) && section[dictEnd] == '>' && section[dictEnd+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd += 2
-					break
-				}
-				dictEnd++
-			}
-			dictEnd++
-		}
 
-		trailerDict := string(section[dictStart:dictEnd])
+		trailerDict := string(blankStrings(dict))
 		prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
 		match := prevPattern.FindStringSubmatch(trailerDict)
 		if match == nil {
@@ -233,13 +217,7 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 	}
 
 	// Cross-reference stream - /Prev is in the stream dictionary
-	// Find the dictionary end (before "stream" keyword)
-	streamIdx := bytes.Index(section, []byte("stream"))
-	if streamIdx == -1 {
-		streamIdx = min(2000, len(section))
-	}
-
-	dictSection := string(section[:streamIdx])
+	dictSection := string(blankStrings(dictAt(section, 0)))
 	prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
 	match := prevPattern.FindStringSubmatch(dictSection)
 	if match == nil {
@@ -251,7 +229,7 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 
 // parsexrefSection parses a single xref section at the given offset
 func (p *incrementalParser) parsexrefSection(startXRef int64) (*xrefSection, error) {
-	if startXRef >= int64(len(p.pdfBytes)) {
+	if startXRef < 0 || startXRef >= int64(len(p.pdfBytes)) {
 		return nil, fmt.Errorf("startXRef out of bounds: %d >= %d", startXRef, len(p.pdfBytes))
 	}
 
@@ -280,87 +258,51 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 		StartXRef: startXRef,
 		Objects:   make(map[int]int64),
 		Streams:   make(map[int]ObjectStreamEntry),
+		Free:      make(map[int]bool),
 	}
 
 	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(10000, len(xrefData))])
-
-	// Parse xref entries
-	lines := regexp.MustCompile(`\r?\n`).Split(xrefStr, -1)
-
-	currentObjNum := 0
-	inSubsection := false
 
-	for i, line := range lines {
-		line = regexp.MustCompile(`^\s+|\s+$`).ReplaceAllString(line, "")
-		if line == "" {
-			continue
-		}
-
-		// First line should be "xref"
-		if i == 0 && line == "xref" {
-			continue
-		}
+	// The entries run up to the trailer keyword
+	trailerIdx := bytes.Index(xrefData, []byte("trailer"))
+	table := xrefData
+	if trailerIdx != -1 {
+		table = xrefData[:trailerIdx]
+	}
 
-		// Check for trailer
-		if line == "trailer" || bytes.HasPrefix([]byte(line), []byte("trailer")) {
+	// Parse xref entries: each subsection is "first_obj_num count" followed by
+	// count entries "offset generation flag"
+	fields := bytes.Fields(table)
+	if len(fields) > 0 && bytes.Equal(fields[0], []byte("xref")) {
+		fields = fields[1:]
+	}
+	for len(fields) >= 2 {
+		firstObj, err1 := strconv.Atoi(string(fields[0]))
+		count, err2 := strconv.Atoi(string(fields[1]))
+		if err1 != nil || err2 != nil {
 			break
 		}
+		fields = fields[2:]
 
-		fields := regexp.MustCompile(`\s+`).Split(line, -1)
-
-		if len(fields) == 2 {
-			// Subsection header: "first_obj_num count"
-			firstObj, err1 := strconv.Atoi(fields[0])
-			_, err2 := strconv.Atoi(fields[1])
+		for i := 0; i < count && len(fields) >= 3; i++ {
+			offset, err1 := strconv.ParseInt(string(fields[0]), 10, 64)
+			_, err2 := strconv.Atoi(string(fields[1]))
 			if err1 == nil && err2 == nil {
-				currentObjNum = firstObj
-				inSubsection = true
-				continue
-			}
-		}
-
-		if inSubsection && len(fields) >= 3 {
-			// Entry: "offset generation flag"
-			offset, err1 := strconv.ParseInt(fields[0], 10, 64)
-			_, err2 := strconv.Atoi(fields[1])
-			flag := fields[2]
-
-			if err1 == nil && err2 == nil && flag == "n" {
-				section.Objects[currentObjNum] = offset
+				switch string(fields[2]) {
+				case "n":
+					section.Objects[firstObj+i] = offset
+				case "f":
+					section.Free[firstObj+i] = true
+				}
 			}
-			currentObjNum++
+			fields = fields[3:]
 		}
 	}
 
 	// Parse trailer for /Root, /Encrypt, /Prev, /Size
-	trailerIdx := bytes.Index(xrefData, []byte("trailer"))
 	if trailerIdx != -1 {
-		// Find the trailer dictionary bounds
-		trailerStart := trailerIdx + 7 // len("trailer")
-		dictStart := bytes.Index(xrefData[trailerStart:], []byte("<<"))
-		if dictStart != -1 {
-			dictStart += trailerStart
-
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < len(xrefData) && depth > 0 {
-				if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '<' && xrefData[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '>' && xrefData[dictEnd+1] == '>' {
-					depth--
-					if depth == 0 {
-						dictEnd += 2
-						break
-					}
-					dictEnd++
-				}
-				dictEnd++
-			}
-
-			trailerDict := string(xrefData[dictStart:dictEnd])
+		if dict := dictAt(xrefData, trailerIdx); dict != nil {
+			trailerDict := string(blankStrings(dict))
 
 			if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
 				section.Root = match[1]
@@ -394,6 +336,7 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 		StartXRef: startXRef,
 		Objects:   make(map[int]int64),
 		Streams:   make(map[int]ObjectStreamEntry),
+		Free:      make(map[int]bool),
 	}
 
 	// Use existing full xref stream parser
@@ -404,10 +347,10 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 
 	section.Objects = result.Objects
 	section.Streams = result.ObjectStreams
+	section.Free = result.Free
 
 	// Extract trailer info from stream dictionary
-	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(2000, len(xrefData))])
+	xrefStr := string(xrefStreamTrailer(p.pdfBytes, startXRef))
 
 	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
 		section.Root = match[1]
@@ -437,13 +380,23 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 func (p *incrementalParser) mergeSections() {
 	// sections are already ordered oldest to newest
 	for _, section := range p.sections {
+		// Objects the section frees; a definition in the same section wins
+		for objNum := range section.Free {
+			delete(p.mergedObjs, objNum)
+			delete(p.mergedStreams, objNum)
+			p.mergedFree[objNum] = true
+		}
 		// Regular objects
 		for objNum, offset := range section.Objects {
 			p.mergedObjs[objNum] = offset
+			delete(p.mergedStreams, objNum)
+			delete(p.mergedFree, objNum)
 		}
 		// Object stream entries
 		for objNum, entry := range section.Streams {
 			p.mergedStreams[objNum] = entry
+			delete(p.mergedObjs, objNum)
+			delete(p.mergedFree, objNum)
 		}
 	}
 
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 2eff238..6a6f658 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -26,6 +26,10 @@ type XRefResult struct {
 	Objects map[int]int64
 	// Objects in object streams (Type 2): objNum -> ObjectStreamEntry
 	ObjectStreams map[int]ObjectStreamEntry
+	// Free objects (Type 0)
+	Free map[int]bool
+	// Generation numbers of regular objects, where not 0
+	Generations map[int]int
 }
 
 // ParseXRefStreamFull parses a PDF cross-reference stream and returns both regular and compressed object info
@@ -33,24 +37,22 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	result := &XRefResult{
 		Objects:       make(map[int]int64),
 		ObjectStreams: make(map[int]ObjectStreamEntry),
+		Free:          make(map[int]bool),
+		Generations:   make(map[int]int),
+	}
+
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("xref stream offset %d out of bounds", startXRef)
 	}
 
 	// The xref stream object should be at startXRef
 	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
 
 	// Find object number - it should be near the start
 	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
+	if !objPattern.Match(xrefSection[:min(500, len(xrefSection))]) {
+		searchStart := max(0, startXRef-100)
+		if !objPattern.Match(pdfBytes[searchStart:min(startXRef+500, int64(len(pdfBytes)))]) {
 			return nil, fmt.Errorf("xref stream object not found")
 		}
 	}
@@ -60,28 +62,36 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	if dictStart == -1 {
 		return nil, fmt.Errorf("xref stream dictionary not found")
 	}
+	dictStop := dictEnd(xrefSection, dictStart)
+	if dictStop == -1 {
+		return nil, fmt.Errorf("xref stream dictionary not closed")
+	}
+	dict := string(blankStrings(xrefSection[dictStart:dictStop]))
 
 	// Find /Size entry
 	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
+	sizeMatch := sizePattern.FindStringSubmatch(dict)
 	if sizeMatch == nil {
 		return nil, fmt.Errorf("/Size not found in xref stream")
 	}
 
 	// Find /W entry (field widths)
 	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
+	wMatch := wPattern.FindStringSubmatch(dict)
 	if wMatch == nil {
 		return nil, fmt.Errorf("/W not found in xref stream")
 	}
 
-	w1, _ := strconv.Atoi(wMatch[1])
-	w2, _ := strconv.Atoi(wMatch[2])
-	w3, _ := strconv.Atoi(wMatch[3])
+	w1, err1 := strconv.Atoi(wMatch[1])
+	w2, err2 := strconv.Atoi(wMatch[2])
+	w3, err3 := strconv.Atoi(wMatch[3])
+	if err1 != nil || err2 != nil || err3 != nil || w1 > 16 || w2 > 16 || w3 > 16 {
+		return nil, fmt.Errorf("invalid /W in xref stream: %s", wMatch[0])
+	}
 
 	// Find /Index entry
 	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
+	indexMatch := indexPattern.FindStringSubmatch(dict)
 
 	var subsections []struct{ first, count int }
 	if indexMatch != nil {
@@ -97,43 +107,20 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	}
 
 	// Find and decompress stream content
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
+	ext := &objectExtent{dictStart: dictStart, dictEnd: dictStop, keyword: dictStop}
+	for ext.keyword < len(xrefSection) && isWhitespace(xrefSection[ext.keyword]) {
+		ext.keyword++
 	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
+	if !bytes.HasPrefix(xrefSection[ext.keyword:], []byte("stream")) {
+		return nil, fmt.Errorf("stream keyword not found")
 	}
-
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
+	if !ext.findStreamData(xrefSection) {
 		return nil, fmt.Errorf("endstream not found")
 	}
-
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
+	streamContent := xrefSection[ext.streamStart:ext.streamEnd]
 
 	// Decompress (xref streams are NOT encrypted)
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	decompressed, err := inflateUnlessPlain(streamContent, dict)
 	if err != nil {
 		return nil, fmt.Errorf("error decompressing xref stream: %v", err)
 	}
@@ -141,7 +128,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	// Check for predictor (PNG filter)
 	// Look for /DecodeParms with /Predictor
 	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(string(xrefSection[:min(500, len(xrefSection))]))
+	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(dict)
 
 	if decodeparmsMatch != nil {
 		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
@@ -154,7 +141,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 			predictor, _ := strconv.Atoi(predictorMatch[1])
 			columns, _ := strconv.Atoi(columnsMatch[1])
 
-			if predictor >= 10 && predictor <= 15 {
+			if predictor >= 10 && predictor <= 15 && columns > 0 && columns <= len(decompressed) {
 				// PNG predictor - apply filter
 				rowSize := columns + 1 // +1 for filter byte
 				numRows := len(decompressed) / rowSize
@@ -185,6 +172,22 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 						for i := 0; i < columns; i++ {
 							decoded[row*columns+i] = rowData[i] + prevRow[i]
 						}
+					case 3: // Average
+						for i := 0; i < columns; i++ {
+							left := 0
+							if i > 0 {
+								left = int(decoded[row*columns+i-1])
+							}
+							decoded[row*columns+i] = rowData[i] + byte((left+int(prevRow[i]))/2)
+						}
+					case 4: // Paeth
+						for i := 0; i < columns; i++ {
+							var left, upLeft byte
+							if i > 0 {
+								left, upLeft = decoded[row*columns+i-1], prevRow[i-1]
+							}
+							decoded[row*columns+i] = rowData[i] + paeth(left, prevRow[i], upLeft)
+						}
 					default:
 						copy(decoded[row*columns:], rowData)
 					}
@@ -214,6 +217,9 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 			// Parse type (first w1 bytes)
 			typeVal := 0
+			if w1 == 0 {
+				typeVal = 1 // default when the field is absent
+			}
 			for i := 0; i < w1 && i < len(entry); i++ {
 				typeVal = typeVal<<8 | int(entry[i])
 			}
@@ -232,12 +238,16 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 			switch typeVal {
 			case 0:
-				// Type 0: free object - skip
+				// Type 0: free object
+				result.Free[objNum] = true
 			case 1:
 				// Type 1: uncompressed, in-use object
 				// field2 = byte offset, field3 = generation
 				if field2 > 0 {
 					result.Objects[objNum] = field2
+					if field3 != 0 {
+						result.Generations[objNum] = int(field3)
+					}
 				}
 			case 2:
 				// Type 2: compressed object in object stream
@@ -263,66 +273,31 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 // GetObjectFromStream extracts an object from an object stream (ObjStm)
 // This implements PyPDF's _get_object_from_stream method
 func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Step 1: Get the object stream itself
-	// First, we need to find the object stream's byte offset
-	// This requires having the xref table for direct objects
-
-	// For now, search for the object stream in the PDF
-	streamPattern := fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum)
-	re := regexp.MustCompile(streamPattern)
-	matches := re.FindIndex(pdfBytes)
-	if matches == nil {
+	// Step 1: Get the object stream itself from where the xref says it is
+	loc, err := FindObjectLocation(pdfBytes, streamObjNum, verbose)
+	if err != nil || !loc.IsDirect {
 		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
 	}
+	return getObjectFromStreamAt(pdfBytes, objNum, streamObjNum, loc.ByteOffset, indexInStream, encryptInfo, verbose)
+}
 
-	streamObjStart := matches[0]
-
-	// Find the object stream's dictionary and stream data
-	objSection := pdfBytes[streamObjStart:]
-
-	// Find dictionary
-	dictStart := bytes.Index(objSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("object stream dictionary not found")
-	}
-
-	// Find dictionary end to get dict content
-	dictEnd := bytes.Index(objSection[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("dictionary end not found")
-	}
-	dictContent := string(objSection[dictStart : dictStart+dictEnd+2])
-
-	// Get /Length from dictionary
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("/Length not found in object stream dictionary")
-	}
-	streamLength, _ := strconv.Atoi(lengthMatch[1])
-
-	// Find stream keyword
-	streamKeyword := bytes.Index(objSection[dictStart:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, fmt.Errorf("stream keyword not found in object stream")
-	}
-	streamKeyword += dictStart
-
-	// Skip "stream" and exactly one EOL marker (per PDF spec)
-	streamDataStart := streamKeyword + 6
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\r' {
-		streamDataStart++
+// getObjectFromStreamAt extracts an object from the object stream at a known byte offset
+func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, streamOffset int64, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	if streamOffset < 0 || streamOffset >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid offset %d for object stream %d", streamOffset, streamObjNum)
 	}
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\n' {
-		streamDataStart++
+	objSection := pdfBytes[streamOffset:]
+	header := regexp.MustCompile(fmt.Sprintf(`^%d\s+\d+\s+obj`, streamObjNum))
+	if !header.Match(objSection[:min(50, len(objSection))]) {
+		return nil, fmt.Errorf("object stream %d not found at offset %d", streamObjNum, streamOffset)
 	}
 
-	// Use /Length to get exact stream data
-	if streamDataStart+streamLength > len(objSection) {
-		return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
+	ext, ok := findObjectExtent(objSection)
+	if !ok || !ext.isStream {
+		return nil, fmt.Errorf("object %d is not a stream", streamObjNum)
 	}
-
-	streamData := objSection[streamDataStart : streamDataStart+streamLength]
+	streamData := objSection[ext.streamStart:ext.streamEnd]
+	dictSection := string(blankStrings(objSection[ext.dictStart:ext.dictEnd]))
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
@@ -334,23 +309,9 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	}
 
 	// Decompress stream data (FlateDecode)
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamData))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-	}
-
-	if err != nil || zlibErr != nil {
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-		if err != nil {
-			return nil, fmt.Errorf("failed to decompress object stream: %v", err)
-		}
+	decompressed, err := inflateUnlessPlain(streamData, dictSection)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress object stream: %v", err)
 	}
 
 	// Parse object stream header
@@ -360,8 +321,6 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	// - Header format: "objnum1 offset1 objnum2 offset2 ..."
 
 	// Find /N and /First from dictionary
-	dictSection := string(objSection[dictStart:streamKeyword])
-
 	nPattern := regexp.MustCompile(`/N\s+(\d+)`)
 	nMatch := nPattern.FindStringSubmatch(dictSection)
 	if nMatch == nil {
@@ -374,7 +333,10 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	if firstMatch == nil {
 		return nil, fmt.Errorf("/First not found in object stream dictionary")
 	}
-	firstOffset, _ := strconv.Atoi(firstMatch[1])
+	firstOffset, err := strconv.Atoi(firstMatch[1])
+	if err != nil || firstOffset > len(decompressed) {
+		return nil, fmt.Errorf("/First %s out of range", firstMatch[1])
+	}
 
 	// Parse header: pairs of "objnum offset"
 	type objEntry struct {
@@ -393,7 +355,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		entries = append(entries, objEntry{objNum: on, offset: off})
 	}
 
-	if indexInStream >= len(entries) {
+	if indexInStream < 0 || indexInStream >= len(entries) {
 		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(entries))
 	}
 
@@ -402,9 +364,10 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	if targetEntry.objNum != objNum {
 		// Try to find by object number instead
 		found := false
-		for _, e := range entries {
+		for i, e := range entries {
 			if e.objNum == objNum {
 				targetEntry = e
+				indexInStream = i
 				found = true
 				break
 			}
@@ -426,7 +389,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		objDataEnd = len(decompressed)
 	}
 
-	if objDataStart >= len(decompressed) || objDataEnd > len(decompressed) {
+	if objDataStart < firstOffset || objDataStart >= len(decompressed) || objDataEnd > len(decompressed) || objDataEnd < objDataStart {
 		return nil, fmt.Errorf("object data offset out of range")
 	}
 
@@ -441,3 +404,44 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 
 	return objectData, nil
 }
+
+// inflateUnlessPlain decompresses stream data whose dictionary names a filter
+func inflateUnlessPlain(data []byte, dict string) ([]byte, error) {
+	if !strings.Contains(dict, "/Filter") {
+		return data, nil
+	}
+
+	// FlateDecode data is normally zlib-wrapped; accept raw deflate as well
+	zlibReader, err := zlib.NewReader(bytes.NewReader(data))
+	if err == nil {
+		var decompressed []byte
+		decompressed, err = io.ReadAll(zlibReader)
+		zlibReader.Close()
+		if err == nil {
+			return decompressed, nil
+		}
+	}
+	flateReader := flate.NewReader(bytes.NewReader(data))
+	defer flateReader.Close()
+	return io.ReadAll(flateReader)
+}
+
+// paeth is the PNG Paeth predictor
+func paeth(a, b, c byte) byte {
+	p := int(a) + int(b) - int(c)
+	pa, pb, pc := absInt(p-int(a)), absInt(p-int(b)), absInt(p-int(c))
+	if pa <= pb && pa <= pc {
+		return a
+	}
+	if pb <= pc {
+		return b
+	}
+	return c
+}
+
+func absInt(n int) int {
+	if n < 0 {
+		return -n
+	}
+	return n
+}
diff --git a/core/parse/scan.go b/core/parse/scan.go
new file mode 100644
index 0000000..3be4cd1
--- /dev/null
+++ b/core/parse/scan.go
@@ -0,0 +1,252 @@
+package parse
+
+import (
+	"bytes"
+	"regexp"
+	"strconv"
+)
+
+// Lexical helpers that find where PDF constructs end. They skip over strings
+// and comments, so delimiters and keywords inside those are not mistaken for
+// structure.
+
+var (
+	directLengthPattern = regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`)
+	streamEndPattern    = regexp.MustCompile(`endstream\s+endobj`)
+)
+
+// skipToken returns the position after the string, comment or single byte that
+// starts at pos.
+func skipToken(data []byte, pos int) int {
+	switch data[pos] {
+	case '(':
+		depth := 0
+		for i := pos; i < len(data); i++ {
+			switch data[i] {
+			case '\\':
+				i++
+			case '(':
+				depth++
+			case ')':
+				depth--
+				if depth == 0 {
+					return i + 1
+				}
+			}
+		}
+		return len(data)
+	case '<':
+		if pos+1 < len(data) && data[pos+1] == '<' {
+			return pos + 2
+		}
+		if end := bytes.IndexByte(data[pos:], '>'); end != -1 {
+			return pos + end + 1
+		}
+		return len(data)
+	case '>':
+		if pos+1 < len(data) && data[pos+1] == '>' {
+			return pos + 2
+		}
+	case '%':
+		for i := pos; i < len(data); i++ {
+			if data[i] == '\r' || data[i] == '\n' {
+				return i
+			}
+		}
+		return len(data)
+	}
+	return pos + 1
+}
+
+// dictEnd returns the position after the ">>" that closes the dictionary whose
+// "<<" is at start, or -1 if it is not closed.
+func dictEnd(data []byte, start int) int {
+	depth := 0
+	for i := start; i < len(data); {
+		next := skipToken(data, i)
+		if next == i+2 {
+			switch data[i] {
+			case '<':
+				depth++
+			case '>':
+				depth--
+				if depth == 0 {
+					return next
+				}
+			}
+		}
+		i = next
+	}
+	return -1
+}
+
+// dictAt returns the first dictionary that starts at or after pos, or nil.
+func dictAt(data []byte, pos int) []byte {
+	if pos < 0 || pos > len(data) {
+		return nil
+	}
+	start := bytes.Index(data[pos:], []byte("<<"))
+	if start == -1 {
+		return nil
+	}
+	start += pos
+	end := dictEnd(data, start)
+	if end == -1 {
+		return nil
+	}
+	return data[start:end]
+}
+
+// blankStrings returns a copy of data with the contents of strings and comments
+// replaced by blanks, so that patterns only match real keys.
+func blankStrings(data []byte) []byte {
+	out := append([]byte(nil), data...)
+	for i := 0; i < len(out); {
+		next := skipToken(data, i)
+		if next > i+1 && (data[i] == '(' || data[i] == '%' || (data[i] == '<' && data[i+1] != '<')) {
+			for j := i + 1; j < next && j < len(out); j++ {
+				if j < next-1 || data[i] == '%' {
+					out[j] = ' '
+				}
+			}
+		}
+		i = next
+	}
+	return out
+}
+
+// objectExtent describes an indirect object's text relative to its start.
+type objectExtent struct {
+	bodyStart   int // first byte after "N G obj" and white space
+	bodyEnd     int // position of "endobj"
+	isStream    bool
+	dictStart   int // dictionary of a stream object
+	dictEnd     int
+	keyword     int // position of the "stream" keyword
+	streamStart int // first byte of stream data
+	streamEnd   int // position after the last byte of stream data
+	endstream   int // position of "endstream"
+}
+
+// findObjectExtent locates the parts of the indirect object whose header
+// ("N G obj") is at the start of data.
+func findObjectExtent(data []byte) (*objectExtent, bool) {
+	ext := &objectExtent{}
+	header := bytes.Index(data[:min(60, len(data))], []byte("obj"))
+	if header == -1 {
+		return nil, false
+	}
+	pos := header + 3
+	for pos < len(data) && isWhitespace(data[pos]) {
+		pos++
+	}
+	ext.bodyStart = pos
+
+	for pos < len(data) {
+		switch {
+		case bytes.HasPrefix(data[pos:], []byte("<<")):
+			end := dictEnd(data, pos)
+			if end == -1 {
+				return nil, false
+			}
+			if !ext.isStream && pos == ext.bodyStart {
+				next := end
+				for next < len(data) && isWhitespace(data[next]) {
+					next++
+				}
+				if bytes.HasPrefix(data[next:], []byte("stream")) {
+					ext.isStream = true
+					ext.dictStart, ext.dictEnd, ext.keyword = pos, end, next
+					if !ext.findStreamData(data) {
+						return nil, false
+					}
+					end = ext.endstream + len("endstream")
+				}
+			}
+			pos = end
+		case bytes.HasPrefix(data[pos:], []byte("endobj")):
+			ext.bodyEnd = pos
+			return ext, true
+		case data[pos] == '/':
+			// A name runs to the next delimiter or white space.
+			pos++
+			for pos < len(data) && !isWhitespace(data[pos]) && bytes.IndexByte([]byte("()<>[]{}/%"), data[pos]) == -1 {
+				pos++
+			}
+		default:
+			pos = skipToken(data, pos)
+		}
+	}
+	return nil, false
+}
+
+// findStreamData sets the stream data positions: by /Length where that leads to
+// "endstream", else by the "endstream" that precedes "endobj".
+func (ext *objectExtent) findStreamData(data []byte) bool {
+	start := ext.keyword + len("stream")
+	if start < len(data) && data[start] == '\r' {
+		start++
+	}
+	if start < len(data) && data[start] == '\n' {
+		start++
+	}
+	ext.streamStart = start
+
+	dict := blankStrings(data[ext.dictStart:ext.dictEnd])
+	if match := directLengthPattern.FindSubmatch(dict); match != nil && len(match[2]) == 0 {
+		length, err := strconv.Atoi(string(match[1]))
+		if err == nil && length <= len(data)-start {
+			end := start + length
+			for end < len(data) && isWhitespace(data[end]) {
+				end++
+			}
+			if bytes.HasPrefix(data[end:], []byte("endstream")) {
+				ext.streamEnd = start + length
+				ext.endstream = end
+				return true
+			}
+		}
+	}
+
+	end := -1
+	if loc := streamEndPattern.FindIndex(data[start:]); loc != nil {
+		end = start + loc[0]
+	} else if idx := bytes.Index(data[start:], []byte("endstream")); idx != -1 {
+		end = start + idx
+	}
+	if end == -1 {
+		return false
+	}
+	ext.endstream = end
+	if end > start && data[end-1] == '\n' {
+		end--
+	}
+	if end > start && data[end-1] == '\r' {
+		end--
+	}
+	ext.streamEnd = end
+	return true
+}
+
+// xrefStreamTrailer returns the text that holds the trailer keys of the
+// cross-reference stream at startXRef: its dictionary, or, where that has no
+// /Root, the trailer dictionary some writers put after the stream.
+func xrefStreamTrailer(data []byte, startXRef int64) []byte {
+	section := data[startXRef:]
+	dict := blankStrings(dictAt(section, 0))
+	if bytes.Contains(dict, []byte("/Root")) {
+		return dict
+	}
+	ext, ok := findObjectExtent(section)
+	if !ok {
+		return dict
+	}
+	rest := section[ext.bodyEnd:]
+	if end := bytes.Index(rest, []byte("startxref")); end != -1 {
+		if trailer := bytes.Index(rest[:end], []byte("trailer")); trailer != -1 {
+			dict = append(dict, '\n')
+			dict = append(dict, blankStrings(dictAt(rest, trailer))...)
+		}
+	}
+	return dict
+}
-- 
2.43.0


From cf0a55b2c652aad0fa196329a04115cae2dbeb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 02/28] fix: byte-perfect parsing of free, packed and
 generation>0 objects

Raw objects end where the object ends, not at the first 'endobj' or
'endstream' in their data, and trailer keys are not read out of strings.
---
 core/parse/document_parser.go | 116 ++++++++++------------------------
 1 file changed, 33 insertions(+), 83 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 86c6a30..d85bd5a 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -131,10 +131,11 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 
 	searchSection := string(pdfBytes[searchStart:eofOffset])
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
-	if match == nil {
+	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
+	if len(matches) == 0 {
 		return nil, fmt.Errorf("startxref not found before %%EOF at %d", eofOffset)
 	}
+	match := matches[len(matches)-1]
 
 	startXRef, _ := strconv.ParseInt(match[1], 10, 64)
 	rev.StartXRef = startXRef
@@ -309,12 +310,17 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	// Convert to XRefEntry format
 	for objNum, offset := range result.Objects {
 		xref.Entries = append(xref.Entries, XRefEntry{
-			ObjectNum: objNum,
-			Offset:    offset,
-			InUse:     true,
+			ObjectNum:  objNum,
+			Generation: result.Generations[objNum],
+			Offset:     offset,
+			InUse:      true,
 		})
 	}
 
+	for objNum := range result.Free {
+		xref.Entries = append(xref.Entries, XRefEntry{ObjectNum: objNum})
+	}
+
 	for objNum, streamEntry := range result.ObjectStreams {
 		xref.Entries = append(xref.Entries, XRefEntry{
 			ObjectNum:      objNum,
@@ -330,8 +336,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 
 // ParseTrailerDataRaw parses trailer data preserving raw bytes
 func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*TrailerData, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref: %d", startXRef)
+	}
 	section := pdfBytes[startXRef:]
-	sectionStr := string(section[:min(5000, len(section))])
 
 	trailer := &TrailerData{}
 
@@ -341,6 +349,8 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 		trailer.Offset = 0 // No separate trailer
 
 		// Extract trailer-equivalent info from stream dictionary
+		trailer.RawBytes = dictAt(section, 0)
+		sectionStr := string(xrefStreamTrailer(pdfBytes, startXRef))
 		if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
 			trailer.Size, _ = strconv.Atoi(match[1])
 		}
@@ -357,25 +367,6 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 			trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
 		}
 
-		// Find dictionary boundaries for RawBytes
-		dictStart := bytes.Index(section, []byte("<<"))
-		if dictStart != -1 {
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < len(section) && depth > 0 {
-				if dictEnd+1 < len(section) && section[dictEnd] == '<' && section[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(section) && section[dictEnd] == '>' && section[dictEnd+1] == '>' {
-					depth--
-					dictEnd++
-				}
-				dictEnd++
-			}
-			trailer.RawBytes = section[dictStart:dictEnd]
-		}
-
 		return trailer, nil
 	}
 
@@ -396,7 +387,7 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 	trailer.RawBytes = section[trailerIdx : trailerIdx+startxrefIdx]
 
 	// Parse trailer values
-	trailerStr := string(trailer.RawBytes)
+	trailerStr := string(blankStrings(trailer.RawBytes))
 
 	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
 		trailer.Size, _ = strconv.Atoi(match[1])
@@ -441,71 +432,30 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 		}
 	}
 
-	// Find endobj
-	endobjIdx := bytes.Index(section, []byte("endobj"))
-	if endobjIdx == -1 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+	// Find where the object and its parts end
+	ext, ok := findObjectExtent(section)
+	if !ok {
+		endobjIdx := bytes.Index(section, []byte("endobj"))
+		if endobjIdx == -1 {
+			return nil, fmt.Errorf("endobj not found for object %d", objNum)
+		}
+		ext = &objectExtent{bodyEnd: endobjIdx}
 	}
 
 	// Include "endobj" in raw bytes
-	endOffset := endobjIdx + 6 // len("endobj")
+	endOffset := ext.bodyEnd + 6 // len("endobj")
 
 	obj.RawBytes = section[:endOffset]
 	obj.EndOffset = offset + int64(endOffset)
 
-	// Check if this is a stream object
-	streamIdx := bytes.Index(obj.RawBytes, []byte("stream"))
-	if streamIdx != -1 {
+	if ext.isStream {
 		obj.IsStream = true
-
-		// Find dictionary (before "stream")
-		dictStart := bytes.Index(obj.RawBytes, []byte("<<"))
-		if dictStart != -1 {
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < streamIdx && depth > 0 {
-				if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '<' && obj.RawBytes[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '>' && obj.RawBytes[dictEnd+1] == '>' {
-					depth--
-					dictEnd++
-				}
-				dictEnd++
-			}
-
-			obj.DictStart = dictStart
-			obj.DictEnd = dictEnd
-			obj.DictRaw = obj.RawBytes[dictStart:dictEnd]
-		}
-
-		// Find stream data boundaries
-		// Stream keyword followed by single EOL
-		streamDataStart := streamIdx + 6 // len("stream")
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\n' {
-			streamDataStart++
-		}
-
-		// Find endstream
-		endstreamIdx := bytes.Index(obj.RawBytes[streamDataStart:], []byte("endstream"))
-		if endstreamIdx != -1 {
-			streamDataEnd := streamDataStart + endstreamIdx
-			// Trim trailing EOL before endstream
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\n' {
-				streamDataEnd--
-			}
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\r' {
-				streamDataEnd--
-			}
-
-			obj.StreamStart = streamDataStart
-			obj.StreamEnd = streamDataEnd
-			obj.StreamRaw = obj.RawBytes[streamDataStart:streamDataEnd]
-		}
+		obj.DictStart = ext.dictStart
+		obj.DictEnd = ext.dictEnd
+		obj.DictRaw = obj.RawBytes[ext.dictStart:ext.dictEnd]
+		obj.StreamStart = ext.streamStart
+		obj.StreamEnd = ext.streamEnd
+		obj.StreamRaw = obj.RawBytes[ext.streamStart:ext.streamEnd]
 	}
 
 	return obj, nil
-- 
2.43.0


From b610dde9fd2fc5dbca9636b628600a80f5ef6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 03/28] fix: write object streams, cross-reference streams and
 empty streams readers can resolve

Object stream offsets counted /First twice, the cross-reference stream had no
trailer entries, packed objects were lost under a cross-reference table, empty
streams lost their stream part, and writing twice renumbered the session.
---
 core/write/object_stream.go | 142 ++++++++-------------------------
 core/write/writer.go        | 153 +++++++++++++++++-------------------
 core/write/xref_stream.go   |  17 ++--
 3 files changed, 115 insertions(+), 197 deletions(-)

diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index e0bbd26..dc44699 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -4,22 +4,18 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"sort"
 	"strconv"
-	"strings"
 )
 
-// objectStreamGroup represents a group of objects to be stored in an object stream
-type objectStreamGroup struct {
-	objNums      []int
-	streamObjNum int
-}
-
-// createObjectStreams groups objects into object streams
-// Returns map of object number -> (streamObjNum, indexInStream)
-func (w *PDFWriter) createObjectStreams() (map[int]struct {
+// createObjectStreams packs the non-stream objects into an object stream that
+// will be written as object streamObjNum. It returns where each packed object
+// lies (stream object number and index in it) and the stream object itself, or
+// nil when there is nothing to pack. The writer is left as it was.
+func (w *PDFWriter) createObjectStreams(streamObjNum int) (map[int]struct {
 	streamObjNum int
 	index        int
-}, []objectStreamGroup, error) {
+}, *PDFObject, error) {
 	if !w.useObjectStream {
 		return nil, nil, nil
 	}
@@ -28,7 +24,8 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	// For simplicity, put all eligible objects into one stream (can be optimized later)
 	var eligibleObjs []int
 	for objNum, obj := range w.objects {
-		if obj.IsFree {
+		// The encryption dictionary has to be readable before anything is decrypted
+		if obj.IsFree || objNum == 0 || fmt.Sprintf("%d 0 R", objNum) == w.encryptRef {
 			continue
 		}
 		// Only compress non-stream objects (stream objects are already compressed)
@@ -40,98 +37,36 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	if len(eligibleObjs) == 0 {
 		return nil, nil, nil
 	}
+	sort.Ints(eligibleObjs)
 
-	// Create object stream
-	streamObjNum := w.nextObjNum
-	w.nextObjNum++
-
-	// Build header and collect object data
-	var headerBuilder strings.Builder
 	objMap := make(map[int]struct {
 		streamObjNum int
 		index        int
 	})
 
-	// Build header first (we need to know offsets)
-	type objInfo struct {
-		objNum int
-		offset int
-		data   []byte
-	}
-	var objInfos []objInfo
-
-	for _, objNum := range eligibleObjs {
-		obj := w.objects[objNum]
-		objInfos = append(objInfos, objInfo{
-			objNum: objNum,
-			data:   obj.Content,
-		})
-	}
-
-	// Calculate offsets
-	currentOffset := 0
-	for i := range objInfos {
-		objInfos[i].offset = currentOffset
-		// Offset is relative to start of object data (after header)
-		// We'll add header length later
-		currentOffset += len(objInfos[i].data) + 1 // +1 for space separator
-	}
-
-	// Build header: "objnum1 offset1 objnum2 offset2 ..."
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-
-	headerStr := strings.TrimSpace(headerBuilder.String())
-	headerBytes := []byte(headerStr)
-	firstOffset := len(headerBytes)
+	// Header: "objnum1 offset1 objnum2 offset2 ...", offsets relative to /First
+	var header, data bytes.Buffer
+	for i, objNum := range eligibleObjs {
+		header.WriteString(strconv.Itoa(objNum))
+		header.WriteString(" ")
+		header.WriteString(strconv.Itoa(data.Len()))
+		header.WriteString(" ")
 
-	// Adjust offsets to be relative to start of data (after header + space)
-	dataStartOffset := firstOffset + 1 // +1 for space after header
-	for i := range objInfos {
-		objInfos[i].offset += dataStartOffset
-	}
-
-	// Rebuild header with corrected offsets
-	headerBuilder.Reset()
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-	headerStr = strings.TrimSpace(headerBuilder.String())
-	headerBytes = []byte(headerStr)
-	firstOffset = len(headerBytes)
+		data.Write(w.objects[objNum].Content)
+		data.WriteByte('\n') // Separator between objects
 
-	// Build data section
-	var dataBuilder bytes.Buffer
-	for i, info := range objInfos {
-		dataBuilder.Write(info.data)
-		if i < len(objInfos)-1 {
-			dataBuilder.WriteByte(' ') // Space between objects
-		}
-
-		// Track mapping
-		objMap[info.objNum] = struct {
+		objMap[objNum] = struct {
 			streamObjNum int
 			index        int
 		}{streamObjNum: streamObjNum, index: i}
 	}
-
-	// Combine header and data
-	var streamData bytes.Buffer
-	streamData.Write(headerBytes)
-	streamData.WriteByte(' ') // Space between header and data
-	streamData.Write(dataBuilder.Bytes())
+	firstOffset := header.Len()
+	header.Write(data.Bytes())
 
 	// Compress stream data
 	var compressed bytes.Buffer
 	zw := zlib.NewWriter(&compressed)
-	if _, err := zw.Write(streamData.Bytes()); err != nil {
+	if _, err := zw.Write(header.Bytes()); err != nil {
 		return nil, nil, fmt.Errorf("failed to compress object stream: %v", err)
 	}
 	if err := zw.Close(); err != nil {
@@ -139,27 +74,16 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	}
 	compressedData := compressed.Bytes()
 
-	// Create object stream dictionary
-	objStreamDict := Dictionary{
-		"/Type":   "/ObjStm",
-		"/N":      len(eligibleObjs),
-		"/First":  firstOffset,
-		"/Filter": "/FlateDecode",
-		"/Length": len(compressedData),
-	}
-
-	// Create object stream object
-	w.objects[streamObjNum] = &PDFObject{
+	return objMap, &PDFObject{
 		Number:     streamObjNum,
 		Generation: 0,
-		Dict:       objStreamDict,
-		Stream:     compressedData,
-	}
-
-	group := objectStreamGroup{
-		objNums:      eligibleObjs,
-		streamObjNum: streamObjNum,
-	}
-
-	return objMap, []objectStreamGroup{group}, nil
+		Dict: Dictionary{
+			"/Type":   "/ObjStm",
+			"/N":      len(eligibleObjs),
+			"/First":  firstOffset,
+			"/Filter": "/FlateDecode",
+			"/Length": len(compressedData),
+		},
+		Stream: compressedData,
+	}, nil
 }
diff --git a/core/write/writer.go b/core/write/writer.go
index cde6981..aab2932 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -101,6 +101,26 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 	objNum := w.nextObjNum
 	w.nextObjNum++
 
+	dict, streamData := streamParts(dict, data, compress)
+
+	w.objects[objNum] = &PDFObject{
+		Number:     objNum,
+		Generation: 0,
+		Dict:       dict,
+		Stream:     streamData,
+	}
+
+	return objNum
+}
+
+// streamParts prepares a stream object's dictionary and data. The caller's
+// dictionary is copied, since /Length and /Filter are the writer's to set.
+func streamParts(dict Dictionary, data []byte, compress bool) (Dictionary, []byte) {
+	out := make(Dictionary, len(dict)+2)
+	for key, value := range dict {
+		out[strings.TrimPrefix(key, "/")] = value
+	}
+
 	streamData := data
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
@@ -108,19 +128,15 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 		zw.Write(data)
 		zw.Close()
 		streamData = buf.Bytes()
-		dict["Filter"] = "/FlateDecode"
+		out["Filter"] = "/FlateDecode"
 	}
-
-	dict["Length"] = len(streamData)
-
-	w.objects[objNum] = &PDFObject{
-		Number:     objNum,
-		Generation: 0,
-		Dict:       dict,
-		Stream:     streamData,
+	if streamData == nil {
+		// An empty stream is still a stream
+		streamData = []byte{}
 	}
 
-	return objNum
+	out["Length"] = len(streamData)
+	return out, streamData
 }
 
 // SetObject sets or replaces an object at a specific number
@@ -137,17 +153,7 @@ func (w *PDFWriter) SetObject(objNum int, content []byte) {
 
 // SetStreamObject sets a stream object at a specific number
 func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, compress bool) {
-	streamData := data
-	if compress && len(data) > 0 {
-		var buf bytes.Buffer
-		zw := zlib.NewWriter(&buf)
-		zw.Write(data)
-		zw.Close()
-		streamData = buf.Bytes()
-		dict["Filter"] = "/FlateDecode"
-	}
-
-	dict["Length"] = len(streamData)
+	dict, streamData := streamParts(dict, data, compress)
 
 	w.objects[objNum] = &PDFObject{
 		Number:     objNum,
@@ -266,16 +272,28 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	buf.WriteString(fmt.Sprintf("%%PDF-%s\n", w.pdfVersion))
 	buf.Write([]byte{0x25, 0xE2, 0xE3, 0xCF, 0xD3, 0x0A}) // Binary marker
 
-	// Create object streams if enabled (before writing objects)
-	// This may add new object stream objects to w.objects
-	objStreamMap, _, err := w.createObjectStreams()
+	// Create object streams if enabled (before writing objects). The streams
+	// and the cross-reference stream take the numbers after the writer's own,
+	// which stay available for further objects.
+	size := w.nextObjNum
+	objStreamMap, objStream, err := w.createObjectStreams(size)
 	if err != nil {
 		return fmt.Errorf("failed to create object streams: %v", err)
 	}
+	objects := make(map[int]*PDFObject, len(w.objects)+1)
+	for num, obj := range w.objects {
+		if num > 0 {
+			objects[num] = obj
+		}
+	}
+	if objStream != nil {
+		objects[objStream.Number] = objStream
+		size++
+	}
 
-	// Collect and sort object numbers (after object streams are created)
+	// Collect and sort object numbers
 	var objNums []int
-	for num := range w.objects {
+	for num := range objects {
 		objNums = append(objNums, num)
 	}
 	sort.Ints(objNums)
@@ -284,7 +302,7 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	positions := make(map[int]int64)
 
 	for _, objNum := range objNums {
-		obj := w.objects[objNum]
+		obj := objects[objNum]
 		if obj.IsFree {
 			continue
 		}
@@ -313,8 +331,8 @@ func (w *PDFWriter) Write(out io.Writer) error {
 				if err == nil {
 					streamData = encrypted
 					// Update length in dictionary
-					obj.Dict["Length"] = len(streamData)
-					content = w.formatDictionary(obj.Dict)
+					dict, _ := streamParts(obj.Dict, streamData, false)
+					content = w.formatDictionary(dict)
 				}
 			}
 
@@ -336,47 +354,39 @@ func (w *PDFWriter) Write(out io.Writer) error {
 
 	var xrefPos int64
 
-	// Write cross-reference (stream or table)
-	if w.useXRefStream {
-		// Write cross-reference stream
-		xrefPos, err = w.writeXRefStream(&buf, positions, objStreamMap)
+	trailer := Dictionary{}
+	if w.rootRef != "" {
+		trailer["/Root"] = w.rootRef
+	}
+	if w.infoRef != "" {
+		trailer["/Info"] = w.infoRef
+	}
+	if w.encryptRef != "" {
+		trailer["/Encrypt"] = w.encryptRef
+	}
+	if len(w.fileID) > 0 {
+		trailer["/ID"] = []interface{}{w.fileID, w.fileID}
+	}
+
+	// Write cross-reference (stream or table). Packed objects can only be
+	// found through a cross-reference stream.
+	if w.useXRefStream || objStream != nil {
+		// The cross-reference stream's dictionary is the trailer
+		xrefPos, err = w.writeXRefStream(&buf, size, trailer, positions, objStreamMap)
 		if err != nil {
 			return fmt.Errorf("failed to write xref stream: %v", err)
 		}
-
-		// Write trailer (xref streams still need a trailer with /Root, /Info, etc.)
-		buf.WriteString("trailer\n<<\n")
-		buf.WriteString(fmt.Sprintf("/Size %d\n", w.nextObjNum))
-		if w.rootRef != "" {
-			buf.WriteString(fmt.Sprintf("/Root %s\n", w.rootRef))
-		}
-		if w.infoRef != "" {
-			buf.WriteString(fmt.Sprintf("/Info %s\n", w.infoRef))
-		}
-		if w.outlinesRef != "" {
-			// Outlines reference goes in the catalog, not trailer
-			// We'll update the catalog object if it exists
-			w.updateCatalogWithOutlines()
-		}
-		if w.encryptRef != "" {
-			buf.WriteString(fmt.Sprintf("/Encrypt %s\n", w.encryptRef))
-		}
-		if len(w.fileID) > 0 {
-			hexID := fmt.Sprintf("%X", w.fileID)
-			buf.WriteString(fmt.Sprintf("/ID [<%s><%s>]\n", hexID, hexID))
-		}
-		buf.WriteString(">>\n")
 	} else {
 		// Write traditional xref table
 		xrefPos = int64(buf.Len())
 		buf.WriteString("xref\n")
-		buf.WriteString(fmt.Sprintf("0 %d\n", w.nextObjNum))
+		buf.WriteString(fmt.Sprintf("0 %d\n", size))
 
 		// Entry for object 0 (always free, points to next free object)
 		buf.WriteString(fmt.Sprintf("%010d %05d f \n", 0, 65535))
 
 		// Entries for each object
-		for i := 1; i < w.nextObjNum; i++ {
+		for i := 1; i < size; i++ {
 			if pos, ok := positions[i]; ok {
 				buf.WriteString(fmt.Sprintf("%010d %05d n \n", pos, 0))
 			} else {
@@ -386,27 +396,10 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		}
 
 		// Write trailer
-		buf.WriteString("trailer\n<<\n")
-		buf.WriteString(fmt.Sprintf("/Size %d\n", w.nextObjNum))
-		if w.rootRef != "" {
-			buf.WriteString(fmt.Sprintf("/Root %s\n", w.rootRef))
-		}
-		if w.infoRef != "" {
-			buf.WriteString(fmt.Sprintf("/Info %s\n", w.infoRef))
-		}
-		if w.outlinesRef != "" {
-			// Outlines reference goes in the catalog, not trailer
-			// We'll update the catalog object if it exists
-			w.updateCatalogWithOutlines()
-		}
-		if w.encryptRef != "" {
-			buf.WriteString(fmt.Sprintf("/Encrypt %s\n", w.encryptRef))
-		}
-		if len(w.fileID) > 0 {
-			hexID := fmt.Sprintf("%X", w.fileID)
-			buf.WriteString(fmt.Sprintf("/ID [<%s><%s>]\n", hexID, hexID))
-		}
-		buf.WriteString(">>\n")
+		trailer["/Size"] = size
+		buf.WriteString("trailer\n")
+		buf.Write(w.formatDictionary(trailer))
+		buf.WriteString("\n")
 	}
 
 	// Write startxref
@@ -448,6 +441,8 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 // formatValue formats a value for PDF output
 func (w *PDFWriter) formatValue(value interface{}) string {
 	switch v := value.(type) {
+	case nil:
+		return "null"
 	case int:
 		return strconv.Itoa(v)
 	case int64:
diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index d482a2d..38bdfb6 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -8,14 +8,14 @@ import (
 
 // writeXRefStream writes a cross-reference stream instead of a traditional xref table
 // Returns the position where the xref stream object starts
+// The stream takes object number xrefStreamObjNum, the highest in the file; its
+// dictionary also serves as the file trailer, so it carries the trailer entries.
 // objStreamMap maps object numbers to (streamObjNum, index) for Type 2 entries
-func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64, objStreamMap map[int]struct {
+func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, xrefStreamObjNum int, trailer Dictionary, positions map[int]int64, objStreamMap map[int]struct {
 	streamObjNum int
 	index        int
 }) (int64, error) {
-	// Reserve object number for xref stream
-	xrefStreamObjNum := w.nextObjNum
-	totalObjects := w.nextObjNum + 1 // Include the xref stream itself
+	totalObjects := xrefStreamObjNum + 1 // Include the xref stream itself
 
 	// Calculate field widths
 	// w1: type field (0 or 1, so 1 byte is enough)
@@ -73,7 +73,7 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	streamData = append(streamData, entry0...)
 
 	// Entries for each existing object
-	for i := 1; i < w.nextObjNum; i++ {
+	for i := 1; i < xrefStreamObjNum; i++ {
 		entry := make([]byte, w1+w2+w3)
 
 		// Check if object is in an object stream (Type 2)
@@ -133,7 +133,6 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	compressedData := compressed.Bytes()
 
 	// Create xref stream dictionary
-	// Note: /Root, /Info, /Encrypt, /ID go in the trailer, not the stream dict
 	xrefStreamDict := Dictionary{
 		"/Type":   "/XRef",
 		"/Size":   totalObjects,
@@ -141,9 +140,9 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 		"/Filter": "/FlateDecode",
 		"/Length": len(compressedData),
 	}
-
-	// Increment object counter
-	w.nextObjNum++
+	for key, value := range trailer {
+		xrefStreamDict[key] = value
+	}
 
 	// Write object header
 	buf.WriteString(fmt.Sprintf("%d 0 obj\n", xrefStreamObjNum))
-- 
2.43.0


From b29be4fc8252b8bc0b12bb2312c9303343c1e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 04/28] fix: page edits, extraction and merging work on the
 page tree and object syntax

---
 core/manipulate/deletion.go   | 253 ++++-----------
 core/manipulate/extraction.go | 108 +++++--
 core/manipulate/insertion.go  |  98 +++---
 core/manipulate/manipulate.go | 212 ++++++-------
 core/manipulate/merging.go    | 165 +---------
 core/manipulate/rotation.go   |  92 +-----
 core/syntax/syntax.go         | 575 ++++++++++++++++++++++++++++++++++
 7 files changed, 889 insertions(+), 614 deletions(-)
 create mode 100644 core/syntax/syntax.go

diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index b807e63..1c5bca2 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -2,235 +2,102 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
+	"sort"
 )
 
 // DeletePage deletes a specific page from the PDF
 // pageNumber is 1-based (first page is 1)
 func (m *PDFManipulator) DeletePage(pageNumber int) error {
-	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	leaf, err := m.getPageLeaf(pageNumber)
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
-
-	// Find the parent Pages object that contains this page
-	parentPagesObjNum, err := m.findParentPagesObject(pageObjNum)
+	leaves, err := m.pageLeaves()
 	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
-	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
+		return fmt.Errorf("failed to get page objects: %w", err)
 	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
+	if len(leaves) == 1 {
+		return fmt.Errorf("cannot delete page: would result in 0 pages")
 	}
-
-	// Parse kids array and remove the page reference
-	// Kids array format: "[5 0 R 6 0 R ]" or "[5 0 R 6 0 R]"
-	kidsRefs := parseObjectRefArray(kidsStr)
-	if len(kidsRefs) == 0 {
-		return fmt.Errorf("Kids array is empty or could not be parsed: %s", kidsStr)
+	if len(leaf.path) == 0 {
+		return fmt.Errorf("page %d (object %d) has no parent Pages object", pageNumber, leaf.objNum)
 	}
 
-	newKidsRefs := make([]string, 0, len(kidsRefs)-1)
-
-	// Match page reference by object number (ignore whitespace)
-	pageRefPattern := fmt.Sprintf(`%d\s+\d+\s+R`, pageObjNum)
-	pageRefRegex := regexp.MustCompile(pageRefPattern)
-
-	found := false
-	for _, kidRef := range kidsRefs {
-		// Check if this reference matches the page we want to delete
-		if pageRefRegex.MatchString(kidRef) {
-			found = true
-			// Skip this reference (don't add to newKidsRefs)
-		} else {
-			newKidsRefs = append(newKidsRefs, kidRef)
+	// Take the page out of its parent's Kids, and a parent left without
+	// children out of its own parent
+	removed := leaf.objNum
+	for i := len(leaf.path) - 1; i >= 0; i-- {
+		var newKids []int
+		for _, kid := range m.kids(leaf.path[i]) {
+			if kid != removed {
+				newKids = append(newKids, kid)
+			}
 		}
-	}
-
-	if !found {
-		return fmt.Errorf("page %d (object %d) not found in Kids array. Kids: %v, KidsStr: %s", pageNumber, pageObjNum, kidsRefs, kidsStr)
-	}
-
-	// Rebuild Kids array string with proper formatting (matching writer format: "[5 0 R 6 0 R ]")
-	// Note: No space before opening bracket to match original format
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
+		m.setKids(leaf.path[i], newKids)
+		if len(newKids) > 0 {
+			break
 		}
-		newKidsStr += ref
+		removed = leaf.path[i]
 	}
-	newKidsStr += " ]"
 
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	if newCount < 1 {
-		return fmt.Errorf("cannot delete page: would result in 0 pages")
-	}
-
-	// Update Count using direct regex replacement to ensure it works
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
-
-	// Also need to update /Count in all ancestor Pages objects
-	err = m.updatePageCounts(parentPagesObjNum, -1)
-	if err != nil {
-		if m.verbose {
-			fmt.Printf("Warning: failed to update page counts: %v\n", err)
-		}
-	}
+	m.updatePageCounts(leaf.path)
 
 	if m.verbose {
-		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, pageObjNum)
+		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, leaf.objNum)
 	}
 
 	return nil
 }
 
 // DeletePages deletes multiple pages from the PDF
-// pageNumbers is 1-based and should be sorted in descending order to avoid index shifts
+// pageNumbers is 1-based; the numbers are those the pages have before the call
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
-	// Sort in descending order to avoid index shifts
-	// (delete from end to beginning)
-	for i := len(pageNumbers) - 1; i >= 0; i-- {
-		if err := m.DeletePage(pageNumbers[i]); err != nil {
-			return fmt.Errorf("failed to delete page %d: %w", pageNumbers[i], err)
-		}
-	}
-	return nil
-}
-
-// findParentPagesObject finds the Pages object that contains the given page object
-func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
-	// Get all Pages objects (intermediate nodes in page tree)
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
+	leaves, err := m.pageLeaves()
 	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
+		return fmt.Errorf("failed to get page objects: %w", err)
 	}
-
-	// Recursively search for the parent
-	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum)
-}
-
-// findParentPagesObjectRecursive recursively searches for the parent Pages object
-func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int) (int, error) {
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return 0, err
+	selected := make(map[int]bool)
+	for _, pageNumber := range pageNumbers {
+		if pageNumber < 1 || pageNumber > len(leaves) {
+			return fmt.Errorf("failed to delete page %d: page number %d out of range (1-%d)", pageNumber, pageNumber, len(leaves))
+		}
+		selected[pageNumber] = true
 	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) - shouldn't happen, but check anyway
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		return 0, fmt.Errorf("reached /Page object, expected /Pages")
+	if len(selected) == len(leaves) {
+		return fmt.Errorf("cannot delete pages: would result in 0 pages")
 	}
 
-	// Get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return 0, fmt.Errorf("no /Kids array found")
+	// Delete from the last page down, so that the numbers stay valid
+	sorted := make([]int, 0, len(selected))
+	for pageNumber := range selected {
+		sorted = append(sorted, pageNumber)
 	}
-
-	// Check if target page is in this Pages object's Kids
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-
-		if kidObjNum == targetPageObjNum {
-			// Found it! This Pages object is the parent
-			return pagesObjNum, nil
-		}
-
-		// Check if this kid is a /Pages node - recurse
-		kidObj, err := m.pdf.GetObject(kidObjNum)
-		if err != nil {
-			continue
-		}
-		kidStr := string(kidObj)
-		kidType := extractDictValue(kidStr, "/Type")
-		if kidType == "/Pages" {
-			// Recurse into this Pages node
-			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum)
-			if err == nil {
-				return parent, nil
-			}
+	sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
+	for _, pageNumber := range sorted {
+		if err := m.DeletePage(pageNumber); err != nil {
+			return fmt.Errorf("failed to delete page %d: %w", pageNumber, err)
 		}
 	}
-
-	return 0, fmt.Errorf("page object %d not found in page tree", targetPageObjNum)
+	return nil
 }
 
-// updatePageCounts updates the /Count field in the given Pages object and all ancestors
-func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
-	// Update this Pages object's count
-	pagesObj, ok := m.objects[pagesObjNum]
-	if !ok {
-		return fmt.Errorf("Pages object %d not found", pagesObjNum)
-	}
-
-	pagesStr := string(pagesObj)
-	countStr := extractDictValue(pagesStr, "/Count")
-	currentCount := 0
-	if countStr != "" {
-		var err error
-		currentCount, err = strconv.Atoi(countStr)
-		if err != nil {
-			currentCount = 0
+// updatePageCounts sets the /Count of the given Pages objects to the number of
+// pages below them
+func (m *PDFManipulator) updatePageCounts(path []int) {
+	leaves, err := m.pageLeaves()
+	if err != nil {
+		return
+	}
+	for _, pagesObjNum := range path {
+		count := 0
+		for _, leaf := range leaves {
+			for _, ancestor := range leaf.path {
+				if ancestor == pagesObjNum {
+					count++
+				}
+			}
 		}
+		pagesStr := string(m.objects[pagesObjNum])
+		m.objects[pagesObjNum] = []byte(setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", count)))
 	}
-
-	newCount := currentCount + delta
-	if newCount < 0 {
-		newCount = 0
-	}
-
-	updatedPagesStr := setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", newCount))
-	m.objects[pagesObjNum] = []byte(updatedPagesStr)
-
-	// Note: Updating parent Pages objects' /Count would require
-	// finding the parent of this Pages object in the tree.
-	// For now, we only update the immediate Pages object.
-	// This is sufficient for most cases where pages are direct children.
-	return nil
 }
diff --git a/core/manipulate/extraction.go b/core/manipulate/extraction.go
index 9e73024..18301da 100644
--- a/core/manipulate/extraction.go
+++ b/core/manipulate/extraction.go
@@ -3,6 +3,7 @@ package manipulate
 import (
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -19,54 +20,42 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 		return nil, fmt.Errorf("failed to create manipulator: %w", err)
 	}
 
-	// Get all page object numbers
-	allPageObjNums, err := manipulator.getAllPageObjectNumbers()
+	// Get all pages
+	leaves, err := manipulator.pageLeaves()
 	if err != nil {
 		return nil, fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page numbers
+	selected := make([]pageLeaf, 0, len(pageNumbers))
 	for _, pageNum := range pageNumbers {
-		if pageNum < 1 || pageNum > len(allPageObjNums) {
-			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPageObjNums))
+		if pageNum < 1 || pageNum > len(leaves) {
+			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(leaves))
 		}
+		selected = append(selected, leaves[pageNum-1])
 	}
 
 	// Create a new PDF with only the extracted pages
 	writer := write.NewPDFWriter()
+	if version := manipulator.version(); version != "" {
+		writer.SetVersion(version)
+	}
 	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
-	pageObjNums := make([]int, 0, len(pageNumbers))
-
-	// Copy page objects and their dependencies
-	for _, pageNum := range pageNumbers {
-		pageObjNum := allPageObjNums[pageNum-1]
-
-		// Get page object
-		pageObj, ok := manipulator.objects[pageObjNum]
-		if !ok {
-			return nil, fmt.Errorf("page object %d not found", pageObjNum)
-		}
-
-		// Copy page object to new PDF
-		writer.SetObject(pageObjNum, pageObj)
-		pageObjNums = append(pageObjNums, pageObjNum)
+	pageObjNums := manipulator.copyPages(writer, selected, pagesObjNum)
 
-		// Update page's Parent reference to point to new Pages object
-		pageStr := string(pageObj)
-		updatedPageStr := setDictValue(pageStr, "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))
-		writer.SetObject(pageObjNum, []byte(updatedPageStr))
-
-		// TODO: Copy page dependencies (content streams, resources, fonts, images, etc.)
-		// For now, we'll copy the page object as-is and hope dependencies are included
-	}
+	finishPages(writer, pagesObjNum, pageObjNums)
+	return writer.Bytes()
+}
 
+// finishPages writes the Pages object and the Catalog of a new PDF
+func finishPages(writer *write.PDFWriter, pagesObjNum int, pageObjNums []int) {
 	// Build Kids array
 	kids := "["
 	for i, pageNum := range pageObjNums {
 		if i > 0 {
 			kids += " "
 		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
+		kids += fmt.Sprintf("%d 0 R", pageNum)
 	}
 	kids += "]"
 
@@ -77,6 +66,67 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 	// Create Catalog
 	catalogObjNum := writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
 	writer.SetRoot(catalogObjNum)
+}
 
-	return writer.Bytes()
+// copyPages copies pages, and everything they refer to, into another PDF under
+// new object numbers. It returns the object numbers the pages get, in order.
+// References to pages that are not copied, to the page tree and to the catalog
+// become null: they would drag the rest of the document along.
+func (m *PDFManipulator) copyPages(writer *write.PDFWriter, pages []pageLeaf, pagesObjNum int) []int {
+	outside := make(map[int]bool) // page tree, catalog
+	if rootObjNum, err := parseObjectRef(m.pdf.Trailer().RootRef); err == nil {
+		outside[rootObjNum] = true
+	}
+	if leaves, err := m.pageLeaves(); err == nil {
+		for _, leaf := range leaves {
+			outside[leaf.objNum] = true
+			for _, pagesNode := range leaf.path {
+				outside[pagesNode] = true
+			}
+		}
+	}
+
+	// Number the pages first, so that they can refer to one another
+	newNums := make(map[int]int)
+	pageObjNums := make([]int, len(pages))
+	for i, page := range pages {
+		pageObjNums[i] = writer.AddObject([]byte("null"))
+		if _, again := newNums[page.objNum]; !again {
+			newNums[page.objNum] = pageObjNums[i]
+		}
+	}
+
+	var pending []int
+	remap := func(body []byte) []byte {
+		return syntax.MapRefs(body, func(num, gen int) string {
+			newNum, known := newNums[num]
+			if !known {
+				if _, exists := m.objects[num]; !exists || outside[num] {
+					return "null"
+				}
+				newNum = writer.AddObject([]byte("null"))
+				newNums[num] = newNum
+				pending = append(pending, num)
+			}
+			return fmt.Sprintf("%d 0 R", newNum)
+		})
+	}
+
+	for i, page := range pages {
+		pageStr := string(m.objects[page.objNum])
+		for _, key := range []string{"/Resources", "/MediaBox", "/CropBox", "/Rotate"} {
+			if value := m.inherited(page, key); value != "" {
+				pageStr = setDictValue(pageStr, key, value)
+			}
+		}
+		pageStr = setDictValue(pageStr, "/Parent", "null")
+		pageStr = setDictValue(string(remap([]byte(pageStr))), "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))
+		writer.SetObject(pageObjNums[i], []byte(pageStr))
+	}
+	for len(pending) > 0 {
+		num := pending[0]
+		pending = pending[1:]
+		writer.SetObject(newNums[num], remap(m.objects[num]))
+	}
+	return pageObjNums
 }
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index df62efc..680c293 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -2,81 +2,67 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
+
+	"github.com/benedoc-inc/pdfer/core/syntax"
 )
 
 // InsertPage inserts a page at a specific position
 // pageNumber is 1-based (first page is 1, 0 means insert at end)
 // The page to insert must be from another PDF (use ExtractPages first)
 func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent []byte) error {
-	// Get all page object numbers
-	pageObjNums, err := m.getAllPageObjectNumbers()
+	leaves, err := m.pageLeaves()
 	if err != nil {
 		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page number
-	if pageNumber < 0 || pageNumber > len(pageObjNums)+1 {
-		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pageObjNums)+1)
+	if pageNumber < 0 || pageNumber > len(leaves)+1 {
+		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(leaves)+1)
+	}
+	if pageObjNum < 1 {
+		return fmt.Errorf("invalid object number %d", pageObjNum)
+	}
+	if _, exists := m.objects[pageObjNum]; exists {
+		return fmt.Errorf("object number %d is already in use", pageObjNum)
 	}
 
-	// Find the parent Pages object
-	parentPagesObjNum, err := m.findParentPagesObjectForInsertion()
+	// Find the parent Pages object and the position among its Kids: in front of
+	// the page that has the number now, or at the end of the page tree
+	rootPagesObjNum, err := m.findParentPagesObjectForInsertion()
 	if err != nil {
 		return fmt.Errorf("failed to find parent Pages object: %w", err)
 	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
-	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
+	path := []int{rootPagesObjNum}
+	kids := m.kids(rootPagesObjNum)
+	insertIdx := len(kids)
+	if pageNumber > 0 && pageNumber <= len(leaves) {
+		next := leaves[pageNumber-1]
+		if len(next.path) == 0 {
+			return fmt.Errorf("page %d (object %d) has no parent Pages object", pageNumber, next.objNum)
+		}
+		path = next.path
+		kids = m.kids(path[len(path)-1])
+		for insertIdx = 0; kids[insertIdx] != next.objNum; {
+			insertIdx++
+		}
 	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-
-	// Insert the new page reference at the specified position
-	newKidsRefs := make([]string, 0, len(kidsRefs)+1)
-	if pageNumber == 0 || pageNumber > len(kidsRefs) {
-		// Insert at end
-		newKidsRefs = append(newKidsRefs, kidsRefs...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-	} else {
-		// Insert at specific position (1-based, convert to 0-based)
-		insertIdx := pageNumber - 1
-		newKidsRefs = append(newKidsRefs, kidsRefs[:insertIdx]...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-		newKidsRefs = append(newKidsRefs, kidsRefs[insertIdx:]...)
+	parentPagesObjNum := path[len(path)-1]
+	if _, ok := m.objects[parentPagesObjNum]; !ok {
+		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
 	}
 
-	// Rebuild Kids array string
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
-		}
-		newKidsStr += ref
-	}
-	newKidsStr += " ]"
+	newKids := make([]int, 0, len(kids)+1)
+	newKids = append(newKids, kids[:insertIdx]...)
+	newKids = append(newKids, pageObjNum)
+	newKids = append(newKids, kids[insertIdx:]...)
 
 	// Add the page object to our objects map
-	m.objects[pageObjNum] = pageContent
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
+	pageStr := setDictValue(string(syntax.Body(pageContent)), "/Parent", fmt.Sprintf("%d 0 R", parentPagesObjNum))
+	m.objects[pageObjNum] = []byte(pageStr)
 
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
+	// Update /Kids, and /Count in the parent and all Pages objects above it
+	m.setKids(parentPagesObjNum, newKids)
+	m.updatePageCounts(path)
 
 	if m.verbose {
 		fmt.Printf("Inserted page (object %d) at position %d\n", pageObjNum, pageNumber)
@@ -97,9 +83,9 @@ func (m *PDFManipulator) findParentPagesObjectForInsertion() (int, error) {
 		return 0, fmt.Errorf("failed to parse root reference: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
+	catalogObj, ok := m.objects[rootObjNum]
+	if !ok {
+		return 0, fmt.Errorf("failed to get catalog: object %d not found", rootObjNum)
 	}
 
 	catalogStr := string(catalogObj)
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index e84543f..7fce53e 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -2,11 +2,11 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -42,7 +42,15 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
-		objects[objNum] = obj
+		if name := extractDictValue(string(obj), "/Type"); objNum == 0 || name == "/XRef" || name == "/ObjStm" {
+			// File structure, not document content: rebuilding makes its own
+			continue
+		}
+		// Keep the object's value alone, the writer adds the object header.
+		// Rebuilt objects all have generation 0.
+		objects[objNum] = syntax.MapRefs(syntax.Body(obj), func(num, gen int) string {
+			return fmt.Sprintf("%d 0 R", num)
+		})
 	}
 
 	return &PDFManipulator{
@@ -61,6 +69,10 @@ func (m *PDFManipulator) Rebuild() ([]byte, error) {
 
 // rebuildPDF rebuilds the PDF with modified objects
 func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
+	if version := m.version(); version != "" {
+		m.writer.SetVersion(version)
+	}
+
 	// Add all objects to writer
 	for objNum, content := range m.objects {
 		m.writer.SetObject(objNum, content)
@@ -100,6 +112,14 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 	return m.writer.Bytes()
 }
 
+// version returns the PDF version of the document, or "" if it has none
+func (m *PDFManipulator) version() string {
+	if version := m.pdf.Version(); version != "unknown" {
+		return version
+	}
+	return ""
+}
+
 // parseObjectRef parses an object reference like "5 0 R"
 func parseObjectRef(ref string) (int, error) {
 	parts := strings.Fields(ref)
@@ -115,123 +135,103 @@ func parseObjectRef(ref string) (int, error) {
 
 // extractDictValue extracts a value from a PDF dictionary string
 func extractDictValue(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
-
-	// Check if the value after the key starts with '[' (array)
-	valueStart := keyIdx + len(key)
-	// Skip whitespace
-	for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-		valueStart++
-	}
-
-	if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-		// Array value - find matching closing bracket
-		arrayStart := valueStart
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(dictStr); i++ {
-			if dictStr[i] == '[' {
-				depth++
-			} else if dictStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i + 1
-					break
-				}
-			}
-		}
-		if arrayEnd > arrayStart {
-			return dictStr[arrayStart:arrayEnd]
+	return string(syntax.Get([]byte(dictStr), strings.TrimPrefix(key, "/")))
+}
+
+// setDictValue sets or updates a value in a PDF dictionary string
+func setDictValue(dictStr, key, value string) string {
+	return string(syntax.Set([]byte(dictStr), strings.TrimPrefix(key, "/"), []byte(value)))
+}
+
+// resolve follows references until it reaches a value
+func (m *PDFManipulator) resolve(value string) string {
+	for i := 0; i < 32; i++ {
+		objNum, _, ok := syntax.Ref([]byte(value))
+		if !ok {
+			break
 		}
+		value = string(m.objects[objNum])
 	}
+	return value
+}
 
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
+// kids returns the object numbers of a page tree node's children
+func (m *PDFManipulator) kids(pagesObjNum int) []int {
+	kidsStr := m.resolve(extractDictValue(string(m.objects[pagesObjNum]), "/Kids"))
+	var kids []int
+	for _, kidRef := range parseObjectRefArray(kidsStr) {
+		if kidObjNum, err := parseObjectRef(kidRef); err == nil {
+			kids = append(kids, kidObjNum)
+		}
 	}
+	return kids
+}
 
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
+// setKids replaces a page tree node's children
+func (m *PDFManipulator) setKids(pagesObjNum int, kids []int) {
+	refs := make([]string, len(kids))
+	for i, kid := range kids {
+		refs[i] = fmt.Sprintf("%d 0 R", kid)
 	}
+	pagesStr := string(m.objects[pagesObjNum])
+	m.objects[pagesObjNum] = []byte(setDictValue(pagesStr, "/Kids", "["+strings.Join(refs, " ")+"]"))
+}
 
-	return ""
+// pageLeaf is a page with the page tree nodes above it, the root first
+type pageLeaf struct {
+	objNum int
+	path   []int
 }
 
-// setDictValue sets or updates a value in a PDF dictionary string
-func setDictValue(dictStr, key, value string) string {
-	// Check if key already exists
-	existingValue := extractDictValue(dictStr, key)
-	if existingValue != "" {
-		// Replace existing value
-		// Try to match and replace with space (e.g., "/Count 3" -> "/Count 2")
-		// Use word boundary or whitespace to ensure we match the full value
-		pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-		if pattern.MatchString(dictStr) {
-			replaced := pattern.ReplaceAllString(dictStr, key+" "+value)
-			// Verify the replacement worked
-			newValue := extractDictValue(replaced, key)
-			if newValue == value {
-				return replaced
-			}
+// pageLeaves walks the page tree as it stands
+func (m *PDFManipulator) pageLeaves() ([]pageLeaf, error) {
+	pagesObjNum, err := m.findParentPagesObjectForInsertion()
+	if err != nil {
+		return nil, err
+	}
+	var leaves []pageLeaf
+	seen := make(map[int]bool)
+	var walk func(objNum int, path []int)
+	walk = func(objNum int, path []int) {
+		obj, ok := m.objects[objNum]
+		if !ok || seen[objNum] {
+			return
 		}
-		// Try without space
-		noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-		if noSpacePattern.MatchString(dictStr) {
-			return noSpacePattern.ReplaceAllString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
+		seen[objNum] = true
+		if m.isPage(string(obj)) {
+			leaves = append(leaves, pageLeaf{objNum: objNum, path: path})
+			return
 		}
-		// Try array value - need to handle brackets properly
-		keyIdx := strings.Index(dictStr, key)
-		if keyIdx != -1 {
-			valueStart := keyIdx + len(key)
-			// Skip whitespace
-			for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-				valueStart++
-			}
-			if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-				// Find matching closing bracket
-				arrayStart := valueStart
-				depth := 0
-				arrayEnd := arrayStart
-				for i := arrayStart; i < len(dictStr); i++ {
-					if dictStr[i] == '[' {
-						depth++
-					} else if dictStr[i] == ']' {
-						depth--
-						if depth == 0 {
-							arrayEnd = i + 1
-							break
-						}
-					}
-				}
-				if arrayEnd > arrayStart {
-					// Replace the array - preserve original spacing (no space after key if original had none)
-					// Check if there was a space after the key in the original
-					originalValueStart := keyIdx + len(key)
-					hadSpace := originalValueStart < len(dictStr) && (dictStr[originalValueStart] == ' ' || dictStr[originalValueStart] == '\t' || dictStr[originalValueStart] == '\n' || dictStr[originalValueStart] == '\r')
-					if hadSpace {
-						return dictStr[:keyIdx] + key + " " + value + " " + dictStr[arrayEnd:]
-					} else {
-						// No space in original, don't add one
-						return dictStr[:keyIdx] + key + value + " " + dictStr[arrayEnd:]
-					}
-				}
-			}
+		below := append(append([]int(nil), path...), objNum)
+		for _, kid := range m.kids(objNum) {
+			walk(kid, below)
 		}
 	}
+	walk(pagesObjNum, nil)
+	return leaves, nil
+}
+
+// isPage tells a /Page (leaf) from a /Pages (intermediate) dictionary
+func (m *PDFManipulator) isPage(objStr string) bool {
+	switch m.resolve(extractDictValue(objStr, "/Type")) {
+	case "/Page":
+		return true
+	case "/Pages":
+		return false
+	}
+	return extractDictValue(objStr, "/Kids") == ""
+}
 
-	// Add new key-value pair before closing >>
-	lastIdx := strings.LastIndex(dictStr, ">>")
-	if lastIdx == -1 {
-		return dictStr
+// inherited returns the value of a page attribute, looked up along the path
+// from the page to the root of the page tree
+func (m *PDFManipulator) inherited(leaf pageLeaf, key string) string {
+	if value := extractDictValue(string(m.objects[leaf.objNum]), key); value != "" {
+		return value
+	}
+	for i := len(leaf.path) - 1; i >= 0; i-- {
+		if value := extractDictValue(string(m.objects[leaf.path[i]]), key); value != "" {
+			return value
+		}
 	}
-	// Insert before the closing >>, but preserve any existing spacing
-	return dictStr[:lastIdx] + key + " " + value + " " + dictStr[lastIdx:]
+	return ""
 }
diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index b1fc310..a0f86df 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -2,9 +2,7 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -16,8 +14,9 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 	}
 
 	writer := write.NewPDFWriter()
+	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
 	var allPageObjNums []int
-	nextObjNum := 1
+	version := ""
 
 	// Process each PDF
 	for pdfIdx, pdfBytes := range pdfBytesList {
@@ -26,168 +25,26 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 			password = passwords[pdfIdx]
 		}
 
-		pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-			Password: password,
-			Verbose:  verbose,
-		})
+		manipulator, err := NewPDFManipulator(pdfBytes, password, verbose)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Get all page object numbers from this PDF
-		pageObjNums, err := getAllPageObjectNumbersFromPDF(pdf)
+		leaves, err := manipulator.pageLeaves()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get pages from PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Copy all objects from this PDF to the merged PDF
-		// Need to remap object numbers to avoid conflicts
-		objNumMap := make(map[int]int) // old objNum -> new objNum
-
-		for _, objNum := range pdf.Objects() {
-			obj, err := pdf.GetObject(objNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get object %d from PDF %d: %v\n", objNum, pdfIdx+1, err)
-				}
-				continue
-			}
-
-			newObjNum := nextObjNum
-			nextObjNum++
-			objNumMap[objNum] = newObjNum
-
-			// Update object references in the content
-			updatedObj := updateObjectReferences(obj, objNumMap, pdfIdx == 0)
-
-			writer.SetObject(newObjNum, updatedObj)
-
-			// If this is a page object, add it to our pages list
-			for _, pageObjNum := range pageObjNums {
-				if objNum == pageObjNum {
-					allPageObjNums = append(allPageObjNums, newObjNum)
-					break
-				}
-			}
+		// Copy the pages and all they need; each PDF's objects get numbers of their own
+		allPageObjNums = append(allPageObjNums, manipulator.copyPages(writer, leaves, pagesObjNum)...)
+		if v := manipulator.version(); v > version {
+			version = v
 		}
 	}
 
-	// Create Pages object with all pages
-	pagesObjNum := nextObjNum
-	nextObjNum++
-
-	kids := "["
-	for i, pageNum := range allPageObjNums {
-		if i > 0 {
-			kids += " "
-		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
+	if version != "" {
+		writer.SetVersion(version)
 	}
-	kids += "]"
-
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(allPageObjNums))
-	writer.SetObject(pagesObjNum, []byte(pagesDict))
-
-	// Create Catalog
-	catalogObjNum := nextObjNum
-	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)
-	writer.SetObject(catalogObjNum, []byte(catalogDict))
-	writer.SetRoot(catalogObjNum)
-
+	finishPages(writer, pagesObjNum, allPageObjNums)
 	return writer.Bytes()
 }
-
-// getAllPageObjectNumbersFromPDF gets all page object numbers from a parsed PDF
-func getAllPageObjectNumbersFromPDF(pdf *parse.PDF) ([]int, error) {
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return extractPageObjectNumbersFromPDF(pdf, pagesObjNum)
-}
-
-// extractPageObjectNumbersFromPDF recursively extracts page object numbers
-func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		childPages, err := extractPageObjectNumbersFromPDF(pdf, kidObjNum)
-		if err != nil {
-			continue
-		}
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums, nil
-}
-
-// updateObjectReferences updates object references in a PDF object string
-// objNumMap maps old object numbers to new object numbers
-func updateObjectReferences(obj []byte, objNumMap map[int]int, isFirstPDF bool) []byte {
-	objStr := string(obj)
-
-	// Find all object references (pattern: "5 0 R")
-	refPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-
-	updatedStr := refPattern.ReplaceAllStringFunc(objStr, func(match string) string {
-		// Extract object number
-		var objNum, genNum int
-		fmt.Sscanf(match, "%d %d R", &objNum, &genNum)
-
-		// Check if we need to remap this reference
-		if newObjNum, ok := objNumMap[objNum]; ok {
-			return fmt.Sprintf("%d 0 R", newObjNum)
-		}
-
-		// For first PDF, keep original references (they're already in the map)
-		// For subsequent PDFs, references to objects not in the map should be updated
-		// For now, return as-is (this is a simplified version)
-		return match
-	})
-
-	return []byte(updatedStr)
-}
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index c411a5e..cb06440 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -15,10 +15,11 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	}
 
 	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	leaf, err := m.getPageLeaf(pageNumber)
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
+	pageObjNum := leaf.objNum
 
 	// Get page object
 	pageObj, ok := m.objects[pageObjNum]
@@ -28,8 +29,8 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 
 	pageStr := string(pageObj)
 
-	// Get current rotation
-	currentRotStr := extractDictValue(pageStr, "/Rotate")
+	// Get current rotation, which may be inherited from the page tree
+	currentRotStr := m.resolve(m.inherited(leaf, "/Rotate"))
 	currentRot := 0
 	if currentRotStr != "" {
 		var parseErr error
@@ -74,91 +75,30 @@ func (m *PDFManipulator) RotateAllPages(angle int) error {
 	return nil
 }
 
-// getPageObjectNumber gets the object number for a given page (1-based)
-func (m *PDFManipulator) getPageObjectNumber(pageNumber int) (int, error) {
-	pageObjNums, err := m.getAllPageObjectNumbers()
+// getPageLeaf finds a given page (1-based) in the page tree
+func (m *PDFManipulator) getPageLeaf(pageNumber int) (pageLeaf, error) {
+	leaves, err := m.pageLeaves()
 	if err != nil {
-		return 0, err
+		return pageLeaf{}, err
 	}
 
-	if pageNumber < 1 || pageNumber > len(pageObjNums) {
-		return 0, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pageObjNums))
+	if pageNumber < 1 || pageNumber > len(leaves) {
+		return pageLeaf{}, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(leaves))
 	}
 
-	return pageObjNums[pageNumber-1], nil
+	return leaves[pageNumber-1], nil
 }
 
-// getAllPageObjectNumbers recursively gets all page object numbers from the pages tree
+// getAllPageObjectNumbers gets all page object numbers from the pages tree
 func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return m.extractPageObjectNumbers(pagesObjNum)
-}
-
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
+	leaves, err := m.pageLeaves()
 	if err != nil {
 		return nil, err
 	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages, err := m.extractPageObjectNumbers(kidObjNum)
-		if err != nil {
-			continue
-		}
-		pageObjNums = append(pageObjNums, childPages...)
+	var pageObjNums []int
+	for _, leaf := range leaves {
+		pageObjNums = append(pageObjNums, leaf.objNum)
 	}
-
 	return pageObjNums, nil
 }
 
diff --git a/core/syntax/syntax.go b/core/syntax/syntax.go
new file mode 100644
index 0000000..937ae6c
--- /dev/null
+++ b/core/syntax/syntax.go
@@ -0,0 +1,575 @@
+// Package syntax reads and edits the text of PDF objects. Strings, comments and
+// stream data are recognised as such, so that what looks like a key, reference
+// or delimiter inside them is left alone.
+package syntax
+
+import (
+	"bytes"
+	"fmt"
+	"strconv"
+)
+
+// IsSpace reports whether c is PDF white space.
+func IsSpace(c byte) bool {
+	return c == 0 || c == '\t' || c == '\n' || c == '\f' || c == '\r' || c == ' '
+}
+
+// IsDelimiter reports whether c is a PDF delimiter.
+func IsDelimiter(c byte) bool {
+	return bytes.IndexByte([]byte("()<>[]{}/%"), c) != -1
+}
+
+func isRegular(c byte) bool { return !IsSpace(c) && !IsDelimiter(c) }
+
+// SkipSpace returns the position of the first byte at or after i that is
+// neither white space nor part of a comment.
+func SkipSpace(b []byte, i int) int {
+	for i < len(b) {
+		switch {
+		case IsSpace(b[i]):
+			i++
+		case b[i] == '%':
+			for i < len(b) && b[i] != '\r' && b[i] != '\n' {
+				i++
+			}
+		default:
+			return i
+		}
+	}
+	return i
+}
+
+// tokenEnd returns the position after the token at i, which must not be white
+// space or a comment. "<<" and ">>" are tokens; strings are one token.
+func tokenEnd(b []byte, i int) int {
+	switch b[i] {
+	case '(':
+		depth := 0
+		for ; i < len(b); i++ {
+			switch b[i] {
+			case '\\':
+				i++
+			case '(':
+				depth++
+			case ')':
+				depth--
+				if depth == 0 {
+					return i + 1
+				}
+			}
+		}
+		return len(b)
+	case '<':
+		if i+1 < len(b) && b[i+1] == '<' {
+			return i + 2
+		}
+		for ; i < len(b); i++ {
+			if b[i] == '>' {
+				return i + 1
+			}
+		}
+		return len(b)
+	case '>':
+		if i+1 < len(b) && b[i+1] == '>' {
+			return i + 2
+		}
+		return i + 1
+	case '/':
+		i++
+		for i < len(b) && isRegular(b[i]) {
+			i++
+		}
+		return i
+	case ')', '[', ']', '{', '}':
+		return i + 1
+	}
+	for i < len(b) && isRegular(b[i]) {
+		i++
+	}
+	return i
+}
+
+// Token returns the extent of the next token at or after i; start == end at the
+// end of the text.
+func Token(b []byte, i int) (start, end int) {
+	start = SkipSpace(b, i)
+	if start >= len(b) {
+		return start, start
+	}
+	return start, tokenEnd(b, start)
+}
+
+// ValueEnd returns the position after the value that starts at i. A reference
+// ("5 0 R") is one value; arrays and dictionaries are taken with their contents.
+func ValueEnd(b []byte, i int) int {
+	if i >= len(b) {
+		return i
+	}
+	end := tokenEnd(b, i)
+	switch {
+	case b[i] == '[' || (b[i] == '<' && end == i+2 && b[i+1] == '<'):
+		depth := 1
+		for depth > 0 {
+			var start int
+			start, end = Token(b, end)
+			if start == end {
+				return len(b)
+			}
+			switch b[start] {
+			case '[':
+				depth++
+			case ']':
+				depth--
+			case '<':
+				if end == start+2 && b[start+1] == '<' {
+					depth++
+				}
+			case '>':
+				if end == start+2 {
+					depth--
+				}
+			}
+		}
+		return end
+	case isDigits(b[i:end]):
+		if _, _, refEnd, ok := refAt(b, i); ok {
+			return refEnd
+		}
+	}
+	return end
+}
+
+func isDigits(b []byte) bool {
+	for _, c := range b {
+		if c < '0' || c > '9' {
+			return false
+		}
+	}
+	return len(b) > 0
+}
+
+// refAt recognises "N G R" at i.
+func refAt(b []byte, i int) (num, gen, end int, ok bool) {
+	numEnd := tokenEnd(b, i)
+	if !isDigits(b[i:numEnd]) {
+		return 0, 0, 0, false
+	}
+	genStart, genEnd := Token(b, numEnd)
+	if !isDigits(b[genStart:genEnd]) {
+		return 0, 0, 0, false
+	}
+	start, end := Token(b, genEnd)
+	if string(b[start:end]) != "R" {
+		return 0, 0, 0, false
+	}
+	num, err1 := strconv.Atoi(string(b[i:numEnd]))
+	gen, err2 := strconv.Atoi(string(b[genStart:genEnd]))
+	return num, gen, end, err1 == nil && err2 == nil
+}
+
+// Body strips the "N G obj" header and the "endobj" trailer an indirect object's
+// text may carry.
+func Body(obj []byte) []byte {
+	i := SkipSpace(obj, 0)
+	pos := i
+	header := true
+	for k := 0; k < 3 && header; k++ {
+		var start int
+		start, pos = Token(obj, pos)
+		if k < 2 {
+			header = isDigits(obj[start:pos])
+		} else {
+			// "obj" may be followed by its value without a delimiter
+			header = bytes.HasPrefix(obj[start:], []byte("obj"))
+			pos = start + 3
+		}
+	}
+	if !header {
+		return obj
+	}
+	body := obj[SkipSpace(obj, pos):]
+	trimmed := bytes.TrimRight(body, "\x00\t\n\f\r ")
+	if bytes.HasSuffix(trimmed, []byte("endobj")) {
+		body = bytes.TrimRight(trimmed[:len(trimmed)-len("endobj")], "\x00\t\n\f\r ")
+	}
+	return body
+}
+
+// head returns the part of an object's text in front of its stream data: all of
+// it when the object is not a stream.
+func head(body []byte) []byte {
+	start := SkipSpace(body, 0)
+	if !bytes.HasPrefix(body[start:], []byte("<<")) {
+		return body
+	}
+	end := ValueEnd(body, start)
+	next := SkipSpace(body, end)
+	if bytes.HasPrefix(body[next:], []byte("stream")) {
+		return body[:end]
+	}
+	return body
+}
+
+// IsStream reports whether the object's text is a stream.
+func IsStream(obj []byte) bool {
+	body := Body(obj)
+	return len(head(body)) < len(body)
+}
+
+// Entry is one entry of a dictionary: its key (decoded, without the slash) and
+// where key and value lie in the text.
+type Entry struct {
+	Key                string
+	KeyStart           int
+	ValStart, ValueEnd int
+}
+
+// Entries lists the entries of the dictionary that is the object's value (or the
+// stream object's dictionary). Positions refer to obj. close is the position of
+// the closing ">>"; ok is false when the value is not a dictionary.
+func Entries(obj []byte) (entries []Entry, close int, ok bool) {
+	body := Body(obj)
+	base := cap(obj) - cap(body) // where body starts in obj
+	i := SkipSpace(body, 0)
+	if !bytes.HasPrefix(body[i:], []byte("<<")) {
+		return nil, 0, false
+	}
+	i += 2
+	for {
+		start, end := Token(body, i)
+		if start == end {
+			return entries, base + len(body), false
+		}
+		if body[start] == '>' {
+			return entries, base + start, true
+		}
+		if body[start] != '/' {
+			// not a key: step over it
+			i = end
+			continue
+		}
+		valStart := SkipSpace(body, end)
+		if valStart >= len(body) {
+			return entries, base + len(body), false
+		}
+		if body[valStart] == '>' && !bytes.HasPrefix(body[valStart:], []byte(">>")) {
+			i = valStart + 1
+			continue
+		}
+		valEnd := valStart
+		if body[valStart] != '>' {
+			valEnd = ValueEnd(body, valStart)
+		}
+		key, _ := Name(body[start:end])
+		entries = append(entries, Entry{Key: key, KeyStart: base + start, ValStart: base + valStart, ValueEnd: base + valEnd})
+		i = valEnd
+	}
+}
+
+// Get returns the text of the value of key in the object's dictionary, or nil.
+func Get(obj []byte, key string) []byte {
+	entries, _, _ := Entries(obj)
+	for _, e := range entries {
+		if e.Key == key {
+			return obj[e.ValStart:e.ValueEnd]
+		}
+	}
+	return nil
+}
+
+// Set returns the object's text with key set to value, which is PDF syntax.
+func Set(obj []byte, key string, value []byte) []byte {
+	entries, close, ok := Entries(obj)
+	var out []byte
+	for _, e := range entries {
+		if e.Key == key {
+			out = append(out, obj[:e.ValStart]...)
+			// the value may have followed its key directly
+			if e.ValStart > 0 && isRegular(obj[e.ValStart-1]) && len(value) > 0 && isRegular(value[0]) {
+				out = append(out, ' ')
+			}
+			out = append(out, value...)
+			if e.ValueEnd < len(obj) && isRegular(obj[e.ValueEnd]) && len(value) > 0 && isRegular(value[len(value)-1]) {
+				out = append(out, ' ')
+			}
+			return append(out, obj[e.ValueEnd:]...)
+		}
+	}
+	if !ok {
+		return obj
+	}
+	out = append(out, obj[:close]...)
+	out = append(out, fmt.Sprintf(" %s ", FormatName(key))...)
+	out = append(out, value...)
+	out = append(out, ' ')
+	return append(out, obj[close:]...)
+}
+
+// Delete returns the object's text without key.
+func Delete(obj []byte, key string) []byte {
+	entries, _, _ := Entries(obj)
+	for _, e := range entries {
+		if e.Key == key {
+			out := append([]byte(nil), obj[:e.KeyStart]...)
+			out = append(out, ' ')
+			return Delete(append(out, obj[e.ValueEnd:]...), key)
+		}
+	}
+	return obj
+}
+
+// Array splits the text of an array into the texts of its elements.
+func Array(value []byte) (elements [][]byte, ok bool) {
+	i := SkipSpace(value, 0)
+	if i >= len(value) || value[i] != '[' {
+		return nil, false
+	}
+	i++
+	for {
+		i = SkipSpace(value, i)
+		if i >= len(value) {
+			return elements, false
+		}
+		if value[i] == ']' {
+			return elements, true
+		}
+		end := ValueEnd(value, i)
+		elements = append(elements, value[i:end])
+		i = end
+	}
+}
+
+// Ref reads a reference.
+func Ref(value []byte) (num, gen int, ok bool) {
+	i := SkipSpace(value, 0)
+	if i >= len(value) {
+		return 0, 0, false
+	}
+	num, gen, _, ok = refAt(value, i)
+	return num, gen, ok
+}
+
+// Int reads an integer.
+func Int(value []byte) (int, bool) {
+	n, err := strconv.Atoi(string(bytes.TrimSpace(value)))
+	return n, err == nil
+}
+
+// Name decodes a name, without its slash.
+func Name(value []byte) (string, bool) {
+	value = bytes.TrimSpace(value)
+	if len(value) == 0 || value[0] != '/' {
+		return "", false
+	}
+	var out []byte
+	for i := 1; i < len(value); i++ {
+		if value[i] == '#' && i+2 < len(value) {
+			if n, err := strconv.ParseUint(string(value[i+1:i+3]), 16, 8); err == nil {
+				out = append(out, byte(n))
+				i += 2
+				continue
+			}
+		}
+		out = append(out, value[i])
+	}
+	return string(out), true
+}
+
+// FormatName writes a name, with its slash.
+func FormatName(name string) string {
+	var out []byte
+	out = append(out, '/')
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if c <= ' ' || c >= 127 || c == '#' || IsDelimiter(c) {
+			out = append(out, fmt.Sprintf("#%02X", c)...)
+		} else {
+			out = append(out, c)
+		}
+	}
+	return string(out)
+}
+
+// String decodes a literal or hexadecimal string.
+func String(value []byte) ([]byte, bool) {
+	i := SkipSpace(value, 0)
+	if i >= len(value) {
+		return nil, false
+	}
+	end := tokenEnd(value, i)
+	switch {
+	case value[i] == '(':
+		if end > i+1 && value[end-1] == ')' {
+			return unescape(value[i+1 : end-1]), true
+		}
+		return unescape(value[i+1 : end]), true
+	case value[i] == '<' && end != i+2, value[i] == '<' && value[i+1] == '>':
+		out := []byte{}
+		half := -1
+		for _, c := range value[i+1 : end] {
+			d := hexDigit(c)
+			if d < 0 {
+				continue
+			}
+			if half < 0 {
+				half = d
+			} else {
+				out = append(out, byte(half<<4|d))
+				half = -1
+			}
+		}
+		if half >= 0 {
+			out = append(out, byte(half<<4))
+		}
+		return out, true
+	}
+	return nil, false
+}
+
+func hexDigit(c byte) int {
+	switch {
+	case c >= '0' && c <= '9':
+		return int(c - '0')
+	case c >= 'a' && c <= 'f':
+		return int(c-'a') + 10
+	case c >= 'A' && c <= 'F':
+		return int(c-'A') + 10
+	}
+	return -1
+}
+
+// unescape decodes the inside of a literal string.
+func unescape(s []byte) []byte {
+	out := make([]byte, 0, len(s))
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if c == '\r' {
+			// an end of line is a line feed however it is written
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+			out = append(out, '\n')
+			continue
+		}
+		if c != '\\' {
+			out = append(out, c)
+			continue
+		}
+		i++
+		if i >= len(s) {
+			break
+		}
+		switch c := s[i]; c {
+		case 'n':
+			out = append(out, '\n')
+		case 'r':
+			out = append(out, '\r')
+		case 't':
+			out = append(out, '\t')
+		case 'b':
+			out = append(out, '\b')
+		case 'f':
+			out = append(out, '\f')
+		case '\r':
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+		case '\n':
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			n := 0
+			k := 0
+			for k < 3 && i+k < len(s) && s[i+k] >= '0' && s[i+k] <= '7' {
+				n = n<<3 | int(s[i+k]-'0')
+				k++
+			}
+			i += k - 1
+			out = append(out, byte(n))
+		default:
+			out = append(out, c)
+		}
+	}
+	return out
+}
+
+// FormatString writes a string literal.
+func FormatString(s []byte) []byte {
+	return append(append([]byte{'('}, EscapeString(s)...), ')')
+}
+
+// EscapeString writes the inside of a string literal.
+func EscapeString(s []byte) []byte {
+	out := make([]byte, 0, len(s)+2)
+	for _, c := range s {
+		switch c {
+		case '(', ')', '\\':
+			out = append(out, '\\', c)
+		case '\n':
+			out = append(out, '\\', 'n')
+		case '\r':
+			out = append(out, '\\', 'r')
+		default:
+			out = append(out, c)
+		}
+	}
+	return out
+}
+
+// MapRefs returns the object's text with every reference replaced by what f
+// returns for it. Strings, comments and stream data stay as they are.
+func MapRefs(obj []byte, f func(num, gen int) string) []byte {
+	return mapTokens(obj, func(b []byte, start, end int) ([]byte, int, bool) {
+		if num, gen, refEnd, ok := refAt(b, start); ok {
+			return []byte(f(num, gen)), refEnd, true
+		}
+		return nil, end, false
+	})
+}
+
+// MapStrings returns the object's text with every string replaced by a string
+// of the bytes f returns. Stream data stays as it is.
+func MapStrings(obj []byte, f func(s []byte) []byte) []byte {
+	return mapTokens(obj, func(b []byte, start, end int) ([]byte, int, bool) {
+		if b[start] != '(' && (b[start] != '<' || bytes.HasPrefix(b[start:], []byte("<<"))) {
+			return nil, end, false
+		}
+		s, ok := String(b[start:end])
+		if !ok {
+			return nil, end, false
+		}
+		return []byte(fmt.Sprintf("<%X>", f(s))), end, true
+	})
+}
+
+// mapTokens rewrites the tokens in front of an object's stream data.
+func mapTokens(obj []byte, f func(b []byte, start, end int) (text []byte, next int, ok bool)) []byte {
+	body := Body(obj)
+	base := cap(obj) - cap(body) // where body starts in obj
+	text := head(body)
+	out := append([]byte(nil), obj[:base]...)
+	pos := 0
+	for {
+		start, end := Token(text, pos)
+		out = append(out, text[pos:start]...)
+		if start == end {
+			break
+		}
+		if repl, next, ok := f(text, start, end); ok {
+			out = append(out, repl...)
+			end = next
+		} else {
+			out = append(out, text[start:end]...)
+		}
+		pos = end
+	}
+	return append(out, obj[base+len(text):]...)
+}
+
+// Refs lists the object numbers the object's text refers to, in order.
+func Refs(obj []byte) []int {
+	var nums []int
+	MapRefs(obj, func(num, gen int) string {
+		nums = append(nums, num)
+		return ""
+	})
+	return nums
+}
-- 
2.43.0


From 7b5c9b6006671f304f515063fa993fff473dbfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 05/28] fix: read hybrid-reference files, CR-terminated tables
 and files that contain an EOF marker in their data

---
 core/parse/document_parser.go | 33 ++++++++++++++-
 core/parse/incremental.go     | 80 ++++++++++++++++++++++++++++++++++-
 2 files changed, 110 insertions(+), 3 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index d85bd5a..15ce818 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -225,7 +225,7 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 	xref.RawBytes = section[:trailerIdx]
 
 	// Parse entries
-	lines := bytes.Split(xref.RawBytes, []byte("\n"))
+	lines := bytes.FieldsFunc(xref.RawBytes, func(r rune) bool { return r == '\n' || r == '\r' })
 
 	currentObjNum := 0
 	inSubsection := false
@@ -275,9 +275,40 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 		}
 	}
 
+	// A hybrid-reference file hides further objects in a cross-reference stream
+	if dict := dictAt(section, trailerIdx); dict != nil {
+		if match := xrefStmPattern.FindSubmatch(blankStrings(dict)); match != nil {
+			addHiddenEntriesRaw(pdfBytes, string(match[1]), xref)
+		}
+	}
+
 	return xref, nil
 }
 
+// addHiddenEntriesRaw appends the entries of the cross-reference stream a
+// table's trailer names with /XRefStm, for objects the table does not hold
+func addHiddenEntriesRaw(pdfBytes []byte, xrefStm string, xref *XRefData) {
+	offset, err := strconv.ParseInt(xrefStm, 10, 64)
+	if err != nil || offset >= int64(len(pdfBytes)) {
+		return
+	}
+	hidden, err := parseXRefStreamRaw(pdfBytes, offset, &XRefData{Offset: offset})
+	if err != nil {
+		return
+	}
+	inTable := make(map[int]bool)
+	for _, entry := range xref.Entries {
+		if entry.InUse {
+			inTable[entry.ObjectNum] = true
+		}
+	}
+	for _, entry := range hidden.Entries {
+		if !inTable[entry.ObjectNum] {
+			xref.Entries = append(xref.Entries, entry)
+		}
+	}
+}
+
 // parseXRefStreamRaw parses a cross-reference stream with raw bytes preserved
 func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRefData, error) {
 	// Parse the xref stream object
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index aac6f12..1245274 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -319,6 +319,9 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 			if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
 				section.Size, _ = strconv.Atoi(match[1])
 			}
+			if match := xrefStmPattern.FindStringSubmatch(trailerDict); match != nil {
+				p.addHiddenEntries(section, match[1])
+			}
 		}
 	}
 
@@ -330,6 +333,45 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 	return section, nil
 }
 
+// xrefStmPattern matches a hybrid-reference file's pointer to the
+// cross-reference stream that complements the table
+var xrefStmPattern = regexp.MustCompile(`/XRefStm\s+(\d+)`)
+
+// addHiddenEntries adds to a cross-reference table the entries of the stream
+// its trailer names with /XRefStm: they count where the table itself does not
+// hold the object.
+func (p *incrementalParser) addHiddenEntries(section *xrefSection, xrefStm string) {
+	offset, err := strconv.ParseInt(xrefStm, 10, 64)
+	if err != nil || offset >= int64(len(p.pdfBytes)) {
+		return
+	}
+	hidden, err := ParseXRefStreamFull(p.pdfBytes, offset, p.verbose)
+	if err != nil {
+		return
+	}
+	inTable := make(map[int]bool)
+	for objNum := range section.Objects {
+		inTable[objNum] = true
+	}
+	for objNum, offset := range hidden.Objects {
+		if !inTable[objNum] {
+			section.Objects[objNum] = offset
+			delete(section.Free, objNum)
+		}
+	}
+	for objNum, entry := range hidden.ObjectStreams {
+		if !inTable[objNum] {
+			section.Streams[objNum] = entry
+			delete(section.Free, objNum)
+		}
+	}
+	for objNum := range hidden.Free {
+		if !inTable[objNum] {
+			section.Free[objNum] = true
+		}
+	}
+}
+
 // parseXRefStreamSection parses a cross-reference stream
 func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSection, error) {
 	section := &xrefSection{
@@ -406,7 +448,10 @@ func (p *incrementalParser) mergeSections() {
 	}
 }
 
-// FindAllEOFMarkers returns the byte offsets of all %%EOF markers in the PDF
+// FindAllEOFMarkers returns the byte offsets of the %%EOF markers that end a
+// revision of the PDF. The same text may also occur in a stream or a string
+// (an embedded PDF, say): once the file's cross-reference sections are known,
+// only markers that close one of them count.
 func FindAllEOFMarkers(pdfBytes []byte) []int {
 	var offsets []int
 	pattern := []byte("%%EOF")
@@ -420,10 +465,41 @@ func FindAllEOFMarkers(pdfBytes []byte) []int {
 		offsets = append(offsets, pos+idx)
 		pos = pos + idx + len(pattern)
 	}
+	if len(offsets) < 2 {
+		return offsets
+	}
 
-	return offsets
+	p := newIncrementalParser(pdfBytes, false)
+	if err := p.parse(); err != nil {
+		return offsets
+	}
+	known := make(map[int64]bool)
+	for _, section := range p.sections {
+		known[section.StartXRef] = true
+	}
+	var revisions []int
+	for _, offset := range offsets {
+		match := startXRefBefore.FindSubmatch(pdfBytes[max(0, offset-100):offset])
+		if match == nil {
+			continue
+		}
+		startXRef, err := strconv.ParseInt(string(match[1]), 10, 64)
+		if err != nil || !known[startXRef] || startXRef >= int64(offset) {
+			continue
+		}
+		// The first marker after a section is the one that closes it
+		delete(known, startXRef)
+		revisions = append(revisions, offset)
+	}
+	if len(revisions) == 0 {
+		return offsets
+	}
+	return revisions
 }
 
+// startXRefBefore matches the startxref that precedes a %%EOF marker
+var startXRefBefore = regexp.MustCompile(`startxref\s+(\d+)\s*$`)
+
 // CountRevisions returns the number of revisions in the PDF
 func CountRevisions(pdfBytes []byte) int {
 	return len(FindAllEOFMarkers(pdfBytes))
-- 
2.43.0


From 49bf7c1da9a87227e558883a2787f37a4278ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 06/28] fix: follow the standard security handler when opening
 and writing encrypted documents

---
 core/encrypt/aes256.go         |  93 ++++++++
 core/encrypt/crypt_filter.go   | 242 +++++++++++++++++++++
 core/encrypt/decrypt.go        | 166 ++++----------
 core/encrypt/key_derivation.go | 216 +++++++------------
 core/encrypt/parser.go         | 383 +++++++++++++--------------------
 core/manipulate/manipulate.go  |  20 +-
 core/parse/api.go              |  28 ++-
 core/parse/get_object.go       |  47 ++--
 core/parse/object_stream.go    |   8 +-
 core/syntax/syntax.go          |  36 +++-
 core/write/encryption_v5.go    | 226 ++++---------------
 core/write/writer.go           | 121 +++--------
 types/types.go                 |   9 +
 13 files changed, 767 insertions(+), 828 deletions(-)
 create mode 100644 core/encrypt/aes256.go
 create mode 100644 core/encrypt/crypt_filter.go

diff --git a/core/encrypt/aes256.go b/core/encrypt/aes256.go
new file mode 100644
index 0000000..03fc91c
--- /dev/null
+++ b/core/encrypt/aes256.go
@@ -0,0 +1,93 @@
+package encrypt
+
+import (
+	"bytes"
+	"crypto/aes"
+	"crypto/cipher"
+	"crypto/sha256"
+	"crypto/sha512"
+
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// AuthenticateV5 checks a user or owner password of an AES-256 document and
+// returns the file encryption key (Algorithm 2.A from ISO 32000-2)
+func AuthenticateV5(password []byte, encrypt *types.PDFEncryption) ([]byte, error) {
+	if len(encrypt.U) < 48 || len(encrypt.O) < 48 || len(encrypt.UE) < 32 || len(encrypt.OE) < 32 {
+		return nil, types.NewPDFError(types.ErrCodeInvalidObject, "encryption dictionary entries too short for AES-256")
+	}
+	u, o := encrypt.U[:48], encrypt.O[:48]
+	if bytes.Equal(HashV5(password, o[32:40], u, encrypt.R), o[:32]) {
+		return UnwrapKeyV5(encrypt.OE[:32], HashV5(password, o[40:48], u, encrypt.R))
+	}
+	if bytes.Equal(HashV5(password, u[32:40], nil, encrypt.R), u[:32]) {
+		return UnwrapKeyV5(encrypt.UE[:32], HashV5(password, u[40:48], nil, encrypt.R))
+	}
+	return nil, types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
+}
+
+// HashV5 computes the hash of a password and a salt. For owner passwords it
+// includes the U value. Revision 5 uses plain SHA-256, revision 6 Algorithm 2.B
+// from ISO 32000-2.
+func HashV5(password, salt, uValue []byte, revision int) []byte {
+	password = password[:min(127, len(password))]
+	h := sha256.New()
+	h.Write(password)
+	h.Write(salt)
+	h.Write(uValue)
+	k := h.Sum(nil)
+	if revision < 6 {
+		return k
+	}
+
+	for round := 0; ; round++ {
+		k1 := bytes.Repeat(append(append(append([]byte(nil), password...), k...), uValue...), 64)
+		block, err := aes.NewCipher(k[:16])
+		if err != nil {
+			return nil
+		}
+		e := make([]byte, len(k1))
+		cipher.NewCBCEncrypter(block, k[16:32]).CryptBlocks(e, k1)
+
+		sum := 0
+		for _, c := range e[:16] {
+			sum += int(c)
+		}
+		switch sum % 3 {
+		case 0:
+			d := sha256.Sum256(e)
+			k = d[:]
+		case 1:
+			d := sha512.Sum384(e)
+			k = d[:]
+		default:
+			d := sha512.Sum512(e)
+			k = d[:]
+		}
+		if round >= 63 && int(e[len(e)-1]) <= round-31 {
+			return k[:32]
+		}
+	}
+}
+
+// UnwrapKeyV5 decrypts a /UE or /OE value
+func UnwrapKeyV5(wrapped, key []byte) ([]byte, error) {
+	block, err := aes.NewCipher(key)
+	if err != nil {
+		return nil, err
+	}
+	out := make([]byte, len(wrapped))
+	cipher.NewCBCDecrypter(block, make([]byte, aes.BlockSize)).CryptBlocks(out, wrapped)
+	return out, nil
+}
+
+// WrapKeyV5 encrypts the file encryption key for /UE or /OE
+func WrapKeyV5(fileKey, key []byte) ([]byte, error) {
+	block, err := aes.NewCipher(key)
+	if err != nil {
+		return nil, err
+	}
+	out := make([]byte, len(fileKey))
+	cipher.NewCBCEncrypter(block, make([]byte, aes.BlockSize)).CryptBlocks(out, fileKey)
+	return out, nil
+}
diff --git a/core/encrypt/crypt_filter.go b/core/encrypt/crypt_filter.go
new file mode 100644
index 0000000..010fa8f
--- /dev/null
+++ b/core/encrypt/crypt_filter.go
@@ -0,0 +1,242 @@
+package encrypt
+
+import (
+	"bytes"
+	"crypto/aes"
+	"crypto/cipher"
+	"crypto/md5"
+	"crypto/rand"
+	"crypto/rc4"
+	"fmt"
+
+	"github.com/benedoc-inc/pdfer/core/syntax"
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// DecryptStream decrypts the data of a stream object. dict is the text of the
+// stream's dictionary, which may choose a crypt filter of its own.
+func DecryptStream(data, dict []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	return decryptData(data, objNum, genNum, streamMethod(dict, encrypt), encrypt)
+}
+
+// EncryptStream encrypts the data of a stream object; it undoes DecryptStream.
+func EncryptStream(data, dict []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	return encryptData(data, objNum, genNum, streamMethod(dict, encrypt), encrypt)
+}
+
+// DecryptStrings returns an object's text with its strings decrypted; stream data
+// stays as it is. Strings that cannot be decrypted stay as they are.
+func DecryptStrings(obj []byte, objNum, genNum int, encrypt *types.PDFEncryption) []byte {
+	method := stringMethod(obj, objNum, encrypt)
+	if method == "None" {
+		return obj
+	}
+	return syntax.MapStrings(obj, func(s []byte) string {
+		if decrypted, err := decryptData(s, objNum, genNum, method, encrypt); err == nil {
+			s = decrypted
+		}
+		return string(syntax.FormatString(s))
+	})
+}
+
+// EncryptStrings returns an object's text with its strings encrypted; it undoes
+// DecryptStrings.
+func EncryptStrings(obj []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	method := stringMethod(obj, objNum, encrypt)
+	if method == "None" {
+		return obj, nil
+	}
+	var failed error
+	out := syntax.MapStrings(obj, func(s []byte) string {
+		encrypted, err := encryptData(s, objNum, genNum, method, encrypt)
+		if err != nil {
+			failed = err
+		}
+		return fmt.Sprintf("<%X>", encrypted)
+	})
+	return out, failed
+}
+
+// stringMethod returns how an object's strings are encrypted. The encryption
+// dictionary and cross-reference streams are not encrypted.
+func stringMethod(obj []byte, objNum int, encrypt *types.PDFEncryption) string {
+	if encrypt == nil || len(encrypt.EncryptKey) == 0 || (objNum != 0 && objNum == encrypt.ObjNum) {
+		return "None"
+	}
+	if syntax.IsStream(obj) && string(syntax.Get(obj, "Type")) == "/XRef" {
+		return "None"
+	}
+	if encrypt.StringMethod != "" {
+		return encrypt.StringMethod
+	}
+	return defaultMethod(encrypt)
+}
+
+// streamMethod returns how a stream's data is encrypted
+func streamMethod(dict []byte, encrypt *types.PDFEncryption) string {
+	if encrypt == nil || len(encrypt.EncryptKey) == 0 {
+		return "None"
+	}
+	switch string(syntax.Get(dict, "Type")) {
+	case "/XRef":
+		return "None"
+	case "/Metadata":
+		if encrypt.V >= 4 && !encrypt.EncryptMetadata {
+			return "None"
+		}
+	}
+
+	// A /Crypt filter, if any, comes first
+	filter, parms := syntax.Get(dict, "Filter"), syntax.Get(dict, "DecodeParms")
+	if elements, ok := syntax.Array(filter); ok {
+		filter = nil
+		if len(elements) > 0 {
+			filter = elements[0]
+		}
+		if elements, ok := syntax.Array(parms); ok {
+			parms = nil
+			if len(elements) > 0 {
+				parms = elements[0]
+			}
+		}
+	}
+	if string(filter) == "/Crypt" {
+		name, ok := syntax.Name(syntax.Get(parms, "Name"))
+		if !ok {
+			return "None"
+		}
+		if method, ok := encrypt.CryptMethods[name]; ok && method != "" {
+			return method
+		}
+		return "None"
+	}
+
+	if encrypt.StreamMethod != "" {
+		return encrypt.StreamMethod
+	}
+	return defaultMethod(encrypt)
+}
+
+// defaultMethod returns the method a document without crypt filters uses
+func defaultMethod(encrypt *types.PDFEncryption) string {
+	switch {
+	case encrypt.V == 1 || encrypt.V == 2:
+		return "V2"
+	case encrypt.V == 4:
+		return "AESV2"
+	case encrypt.V == 5:
+		return "AESV3"
+	}
+	return "None"
+}
+
+// objectKey derives the key for one object (Algorithm 1 from ISO 32000-1:2008);
+// AES-256 uses the file's key for all of them
+func objectKey(objNum, genNum int, method string, encrypt *types.PDFEncryption) []byte {
+	if method == "AESV3" {
+		return encrypt.EncryptKey
+	}
+	n := len(encrypt.EncryptKey)
+	if encrypt.V == 1 {
+		n = min(n, 5)
+	} else if encrypt.KeyLength > 0 {
+		n = min(n, encrypt.KeyLength)
+	}
+
+	hash := md5.New()
+	hash.Write(encrypt.EncryptKey[:n])
+	hash.Write([]byte{byte(objNum), byte(objNum >> 8), byte(objNum >> 16), byte(genNum), byte(genNum >> 8)})
+	if method == "AESV2" {
+		hash.Write([]byte("sAlT"))
+	}
+	return hash.Sum(nil)[:min(n+5, 16)]
+}
+
+func decryptData(data []byte, objNum, genNum int, method string, encrypt *types.PDFEncryption) ([]byte, error) {
+	switch method {
+	case "None":
+		return data, nil
+	case "V2":
+		return rc4Data(data, objectKey(objNum, genNum, method, encrypt))
+	case "AESV2", "AESV3":
+		return decryptAES(data, objectKey(objNum, genNum, method, encrypt))
+	}
+	return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported crypt filter method %q", method)
+}
+
+func encryptData(data []byte, objNum, genNum int, method string, encrypt *types.PDFEncryption) ([]byte, error) {
+	switch method {
+	case "None":
+		return data, nil
+	case "V2":
+		return rc4Data(data, objectKey(objNum, genNum, method, encrypt))
+	case "AESV2", "AESV3":
+		return encryptAES(data, objectKey(objNum, genNum, method, encrypt))
+	}
+	return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported crypt filter method %q", method)
+}
+
+func rc4Data(data, key []byte) ([]byte, error) {
+	c, err := rc4.NewCipher(key)
+	if err != nil {
+		return nil, err
+	}
+	out := make([]byte, len(data))
+	c.XORKeyStream(out, data)
+	return out, nil
+}
+
+// decryptAES decrypts CBC data with the initialization vector in front and
+// PKCS#7 padding behind. Data whose padding is damaged is returned with it.
+func decryptAES(data, key []byte) ([]byte, error) {
+	if len(data) == 0 {
+		return data, nil
+	}
+	if len(data) < aes.BlockSize {
+		return nil, types.NewPDFErrorf(types.ErrCodeStreamError, "AES: buffer length < 16 (%d)", len(data)).WithContext("length", len(data))
+	}
+	iv, data := data[:aes.BlockSize], data[aes.BlockSize:]
+	if len(data)%aes.BlockSize != 0 {
+		return nil, types.NewPDFErrorf(types.ErrCodeStreamError, "AES buffer length not multiple of 16 (%d)", len(data)).WithContext("length", len(data))
+	}
+	block, err := aes.NewCipher(key)
+	if err != nil {
+		return nil, err
+	}
+	decrypted := make([]byte, len(data))
+	cipher.NewCBCDecrypter(block, iv).CryptBlocks(decrypted, data)
+	return stripPadding(decrypted), nil
+}
+
+func encryptAES(data, key []byte) ([]byte, error) {
+	block, err := aes.NewCipher(key)
+	if err != nil {
+		return nil, err
+	}
+	padLen := aes.BlockSize - len(data)%aes.BlockSize
+	out := make([]byte, aes.BlockSize, aes.BlockSize+len(data)+padLen)
+	if _, err := rand.Read(out); err != nil {
+		return nil, err
+	}
+	out = append(out, data...)
+	out = append(out, bytes.Repeat([]byte{byte(padLen)}, padLen)...)
+	cipher.NewCBCEncrypter(block, out[:aes.BlockSize]).CryptBlocks(out[aes.BlockSize:], out[aes.BlockSize:])
+	return out, nil
+}
+
+// stripPadding removes PKCS#7 padding, if it is intact
+func stripPadding(data []byte) []byte {
+	if len(data) == 0 {
+		return data
+	}
+	n := int(data[len(data)-1])
+	if n < 1 || n > aes.BlockSize || n > len(data) {
+		return data
+	}
+	for _, c := range data[len(data)-n:] {
+		if int(c) != n {
+			return data
+		}
+	}
+	return data[:len(data)-n]
+}
diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index cbb5758..d67771e 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -2,10 +2,6 @@ package encrypt
 
 import (
 	"bytes"
-	"crypto/aes"
-	"crypto/cipher"
-	"crypto/md5"
-	"crypto/rc4"
 	"log"
 
 	"github.com/benedoc-inc/pdfer/types"
@@ -25,14 +21,30 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		log.Printf("PDF encryption: V=%d, R=%d, KeyLength=%d", encrypt.V, encrypt.R, encrypt.KeyLength)
 	}
 
+	if encrypt.Filter != "" && encrypt.Filter != "Standard" {
+		return nil, nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported security handler %q", encrypt.Filter)
+	}
+	switch {
+	case encrypt.V == 5 && (encrypt.R == 5 || encrypt.R == 6):
+	case (encrypt.V == 1 || encrypt.V == 2 || encrypt.V == 4) && encrypt.R >= 2 && encrypt.R <= 4:
+	default:
+		return nil, nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption: V=%d, R=%d", encrypt.V, encrypt.R)
+	}
+
 	// Extract file ID from PDF trailer (needed for key derivation and U value computation)
 	fileID := ExtractFileID(pdfBytes, verbose)
 
 	// For V5/R5/R6, we need to unwrap the encryption key from /UE
 	var encryptKey []byte
 
-	if encrypt.R >= 5 {
-		// V5: Derive password key, verify U value, then unwrap actual encryption key from /UE
+	if encrypt.R >= 5 && len(encrypt.UE) <= 32 {
+		encryptKey, err = AuthenticateV5(password, encrypt)
+		if err != nil {
+			return nil, nil, err
+		}
+		encrypt.EncryptKey = encryptKey
+	} else if encrypt.R >= 5 {
+		// V5 as older versions of this library wrote it: Derive password key, verify U value, then unwrap actual encryption key from /UE
 		passwordKey, err := DeriveEncryptionKey(password, encrypt, fileID, verbose)
 		if err != nil {
 			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error deriving password key", err)
@@ -58,7 +70,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 				// For owner password, we need to verify differently
 				// Owner password verification involves unwrapping /OE and checking if it works
 				ownerKey, err2 := UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
-				if err2 == nil {
+				if err2 == nil && len(ownerKey) == 32 {
 					// If unwrapping succeeded, owner password is correct
 					// The unwrapped owner key is the user encryption key
 					encryptKey = ownerKey
@@ -113,18 +125,9 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		}
 
 		// Compare with stored U value
-		// For revision 2: compare first 16 bytes
+		// For revision 2: compare all 32 bytes
 		// For revision 3-4: compare first 16 bytes (the encrypted hash)
-		// Note: U value is 32 bytes for revision 3-4, but only first 16 are used for verification
-		uMatch := false
-		if len(encrypt.U) >= 16 && len(uValue) >= 16 {
-			if encrypt.R == 2 {
-				uMatch = bytes.Equal(uValue[:16], encrypt.U[:16])
-			} else {
-				// For revision 3-4, compare first 16 bytes
-				uMatch = bytes.Equal(uValue[:16], encrypt.U[:16])
-			}
-		}
+		uMatch := sameValidator(uValue, encrypt)
 
 		if verbose {
 			if uMatch {
@@ -148,14 +151,12 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 				userKey, err := DeriveUserKeyFromOwner(ownerKey, encrypt, verbose)
 				if err == nil {
 					uValue2, err := ComputeUValue(userKey, encrypt, fileID, verbose)
-					if err == nil && len(uValue2) >= 16 && len(encrypt.U) >= 16 {
-						if bytes.Equal(uValue2[:16], encrypt.U[:16]) {
-							if verbose {
-								log.Printf("Owner password verified! Using owner-derived user key")
-							}
-							encrypt.EncryptKey = userKey
-							uMatch = true
+					if err == nil && sameValidator(uValue2, encrypt) {
+						if verbose {
+							log.Printf("Owner password verified! Using owner-derived user key")
 						}
+						encrypt.EncryptKey = userKey
+						uMatch = true
 					}
 				}
 			}
@@ -179,6 +180,15 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 	return decryptedPDF, encrypt, nil
 }
 
+// sameValidator compares a computed U value with the document's
+func sameValidator(uValue []byte, encrypt *types.PDFEncryption) bool {
+	n := 16
+	if encrypt.R == 2 {
+		n = 32
+	}
+	return len(uValue) >= n && len(encrypt.U) >= n && bytes.Equal(uValue[:n], encrypt.U[:n])
+}
+
 // DecryptPDFObjects decrypts all encrypted objects in the PDF
 // This is a simplified version - full implementation would parse xref table
 // and decrypt objects individually
@@ -195,110 +205,8 @@ func DecryptPDFObjects(pdfBytes []byte, encrypt *types.PDFEncryption, verbose bo
 	return pdfBytes, nil
 }
 
-// DecryptObject decrypts a single PDF object or stream
+// DecryptObject decrypts the data of a single PDF stream
 // Algorithm 1 from ISO 32000-1:2008
-// Implementation copied EXACTLY from PyPDF's _make_crypt_filter (lines 914-935) and CryptAES.decrypt (lines 73-88)
 func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
-	if encrypt == nil || len(encrypt.EncryptKey) == 0 {
-		// Not encrypted
-		return objBytes, nil
-	}
-
-	// PyPDF line 914: pack1 = struct.pack("<i", idnum)[:3]
-	// struct.pack("<i", idnum) packs as little-endian int32 (4 bytes)
-	// [:3] takes first 3 bytes (low-order bytes)
-	pack1 := make([]byte, 3)
-	pack1[0] = byte(objNum & 0xff)
-	pack1[1] = byte((objNum >> 8) & 0xff)
-	pack1[2] = byte((objNum >> 16) & 0xff)
-
-	// PyPDF line 915: pack2 = struct.pack("<i", generation)[:2]
-	pack2 := make([]byte, 2)
-	pack2[0] = byte(genNum & 0xff)
-	pack2[1] = byte((genNum >> 8) & 0xff)
-
-	// PyPDF line 919: n = 5 if self.V == 1 else self.Length // 8
-	n := 5
-	if encrypt.V > 1 {
-		n = encrypt.KeyLength // KeyLength is already in bytes (converted from bits in parser)
-	}
-
-	// PyPDF line 918: key = self._key
-	// PyPDF line 920: key_data = key[:n] + pack1 + pack2
-	keyData := make([]byte, n+5)
-	copy(keyData, encrypt.EncryptKey[:n]) // CRITICAL: Use only first n bytes!
-	copy(keyData[n:], pack1)
-	copy(keyData[n+3:], pack2)
-
-	// PyPDF line 921: key_hash = hashlib.md5(key_data)
-	keyHash := md5.New()
-	keyHash.Write(keyData)
-
-	// Decrypt based on encryption algorithm
-	if encrypt.V == 1 || encrypt.V == 2 {
-		// RC4 encryption
-		// PyPDF line 922: rc4_key = key_hash.digest()[: min(n + 5, 16)]
-		rc4KeyHash := keyHash.Sum(nil)
-		rc4Key := rc4KeyHash[:min(n+5, 16)]
-
-		cipher, err := rc4.NewCipher(rc4Key)
-		if err != nil {
-			return nil, err
-		}
-		decrypted := make([]byte, len(objBytes))
-		cipher.XORKeyStream(decrypted, objBytes)
-		return decrypted, nil
-	} else if encrypt.V == 4 || encrypt.V == 5 {
-		// AES encryption (AES-128 or AES-256)
-		// PyPDF line 925: key_hash.update(b"sAlT")
-		// PyPDF line 926: aes128_key = key_hash.digest()[: min(n + 5, 16)]
-		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
-		aesKeyHash := keyHash.Sum(nil)
-		aesKeyLen := min(n+5, 16)
-		aesKey := aesKeyHash[:aesKeyLen]
-
-		// PyPDF CryptAES.decrypt (lines 73-88):
-		// Line 74: iv = data[:16]
-		// Line 75: data = data[16:]
-		if len(objBytes) < 16 {
-			return objBytes, types.NewPDFErrorf(types.ErrCodeStreamError, "AES: buffer length < 16 (%d)", len(objBytes)).WithContext("length", len(objBytes))
-		}
-
-		iv := objBytes[:16]
-		data := objBytes[16:]
-
-		// Line 77-78: if not data: return data
-		if len(data) == 0 {
-			return data, nil
-		}
-
-		// Line 81-83: if len(data) % 16 != 0: pad it (robustness check)
-		if len(data)%16 != 0 {
-			return data, types.NewPDFErrorf(types.ErrCodeStreamError, "AES buffer length not multiple of 16 (%d)", len(data)).WithContext("length", len(data))
-		}
-
-		// Line 85-87: cipher = Cipher(self.alg, CBC(iv)); decryptor = cipher.decryptor(); d = decryptor.update(data) + decryptor.finalize()
-		block, err := aes.NewCipher(aesKey)
-		if err != nil {
-			return nil, err
-		}
-
-		mode := cipher.NewCBCDecrypter(block, iv)
-		decrypted := make([]byte, len(data))
-		mode.CryptBlocks(decrypted, data)
-
-		// Line 88: return d[: -d[-1]]  (remove PKCS#7 padding)
-		if len(decrypted) == 0 {
-			return decrypted, nil
-		}
-
-		paddingLen := int(decrypted[len(decrypted)-1])
-		if paddingLen > len(decrypted) {
-			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d > %d", paddingLen, len(decrypted)).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
-		}
-
-		return decrypted[:len(decrypted)-paddingLen], nil
-	}
-
-	return objBytes, nil
+	return DecryptStream(objBytes, nil, objNum, genNum, encrypt)
 }
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index bbbb6cb..e86e1d1 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -13,9 +13,39 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+// passwordPadding pads passwords to 32 bytes (Algorithm 2)
+var passwordPadding = []byte{
+	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
+	0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
+	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
+	0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
+}
+
+// padPassword pads or truncates a password to 32 bytes
+func padPassword(password []byte) []byte {
+	padded := make([]byte, 32)
+	n := copy(padded, password)
+	copy(padded[n:], passwordPadding)
+	return padded
+}
+
+// fileKeyLength returns the length of the file encryption key in bytes (V1-V4)
+func fileKeyLength(encrypt *types.PDFEncryption) (int, error) {
+	switch {
+	case encrypt.KeyLength == 0 && encrypt.R == 2:
+		return 5, nil
+	case encrypt.KeyLength == 0:
+		return md5.Size, nil
+	case encrypt.KeyLength < 0 || encrypt.KeyLength > md5.Size:
+		return 0, fmt.Errorf("unsupported key length: %d bytes", encrypt.KeyLength)
+	}
+	return encrypt.KeyLength, nil
+}
+
 // DeriveEncryptionKey derives the encryption key from password
 // Based on PDF encryption algorithm (ISO 32000) - Algorithm 2 (V1-V4) or 7.6.4.3.3 (V5+)
 func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID []byte, verbose bool) ([]byte, error) {
@@ -23,35 +53,18 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveEncryptionKeyV5(password, encrypt, fileID, verbose)
 	}
-	// Pad or truncate password to 32 bytes
-	// According to PDF spec Algorithm 2:
-	// - If password is shorter than 32 bytes, pad by appending bytes from the password cyclically
-	// - For empty password, the padding string itself is used
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-	}
-
-	paddedPassword := make([]byte, 32)
-	if len(password) == 0 {
-		// Empty password: use padding string directly
-		copy(paddedPassword, paddingString)
-	} else {
-		copy(paddedPassword, password)
-		if len(password) < 32 {
-			// Pad with password bytes cyclically
-			for i := len(password); i < 32; i++ {
-				paddedPassword[i] = password[i%len(password)]
-			}
-		}
+	keyLength, err := fileKeyLength(encrypt)
+	if err != nil {
+		return nil, err
 	}
 
+	// Pad or truncate password to 32 bytes
+	paddedPassword := padPassword(password)
+
 	// Step 1: Compute hash of padded password + O + P (as 32-bit int, little-endian) + ID[0]
 	hash := md5.New()
 	hash.Write(paddedPassword)
-	hash.Write(encrypt.O)
+	hash.Write(encrypt.O[:min(32, len(encrypt.O))])
 
 	// P as 32-bit unsigned integer, little-endian
 	pBytes := make([]byte, 4)
@@ -71,8 +84,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 		}
 	}
 
-	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF
-	if !encrypt.EncryptMetadata {
+	// If EncryptMetadata is false (revision 4), add 4 bytes of 0xFFFFFFFF
+	if encrypt.R >= 4 && !encrypt.EncryptMetadata {
 		metadataBytes := []byte{0xFF, 0xFF, 0xFF, 0xFF}
 		hash.Write(metadataBytes)
 		if verbose {
@@ -86,17 +99,13 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 3 {
 		for i := 0; i < 50; i++ {
 			hash := md5.New()
-			hash.Write(key[:encrypt.KeyLength])
+			hash.Write(key[:keyLength])
 			key = hash.Sum(nil)
 		}
 	}
 
 	// Truncate to key length
-	if len(key) > encrypt.KeyLength {
-		key = key[:encrypt.KeyLength]
-	}
-
-	return key, nil
+	return key[:keyLength], nil
 }
 
 // ComputeUValue computes the U value for password verification
@@ -105,12 +114,7 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 func ComputeUValue(encryptKey []byte, encrypt *types.PDFEncryption, fileID []byte, verbose bool) ([]byte, error) {
 	if encrypt.R == 2 {
 		// Revision 2: RC4 encrypt padding string
-		padding := []byte{
-			0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-			0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-			0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-			0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-		}
+		padding := passwordPadding
 
 		cipher, err := rc4.NewCipher(encryptKey)
 		if err != nil {
@@ -123,12 +127,7 @@ func ComputeUValue(encryptKey []byte, encrypt *types.PDFEncryption, fileID []byt
 	} else if encrypt.R >= 3 && encrypt.R < 5 {
 		// Revision 3-4: MD5 hash of padding + file ID, then RC4 encrypt
 		// Algorithm 5 from ISO 32000-1:2008
-		padding := []byte{
-			0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-			0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-			0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-			0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-		}
+		padding := passwordPadding
 
 		hash := md5.New()
 		hash.Write(padding)
@@ -201,67 +200,45 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveOwnerKeyV5(ownerPassword, encrypt, fileID, verbose)
 	}
-	// Pad owner password to 32 bytes
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-	}
-
-	paddedOwnerPassword := make([]byte, 32)
-	if len(ownerPassword) > 0 {
-		copy(paddedOwnerPassword, ownerPassword)
-		if len(ownerPassword) < 32 {
-			for i := len(ownerPassword); i < 32; i++ {
-				paddedOwnerPassword[i] = ownerPassword[i%len(ownerPassword)]
-			}
-		}
-	} else {
-		// Empty password - use padding string
-		copy(paddedOwnerPassword, paddingString)
+	keyLength, err := fileKeyLength(encrypt)
+	if err != nil {
+		return nil, err
 	}
 
 	// MD5 hash of padded owner password
-	hash := md5.New()
-	hash.Write(paddedOwnerPassword)
-	ownerHash := hash.Sum(nil)
+	digest := md5.Sum(padPassword(ownerPassword))
+	ownerHash := digest[:]
 
-	// For revision 3+, iterate 50 times
+	// For revision 3+, iterate 50 times (over the whole digest)
 	if encrypt.R >= 3 {
 		for i := 0; i < 50; i++ {
-			hash := md5.New()
-			hash.Write(ownerHash[:encrypt.KeyLength])
-			ownerHash = hash.Sum(nil)
+			digest = md5.Sum(ownerHash)
+			ownerHash = digest[:]
 		}
 	}
+	ownerHash = ownerHash[:keyLength]
 
-	// Truncate to key length
-	if len(ownerHash) > encrypt.KeyLength {
-		ownerHash = ownerHash[:encrypt.KeyLength]
+	// O is the padded user password, encrypted with RC4 using the owner key
+	// (Algorithm 7): once in revision 2, with 20 variations of the key later
+	userPassword := append([]byte(nil), encrypt.O[:min(32, len(encrypt.O))]...)
+	last := 0
+	if encrypt.R >= 3 {
+		last = 19
 	}
-
-	// Decrypt O value using owner key
-	// O value is encrypted with RC4 using owner key
-	decryptedO := make([]byte, len(encrypt.O))
-	if encrypt.R == 2 {
-		cipher, err := rc4.NewCipher(ownerHash)
-		if err != nil {
-			return nil, err
+	for i := last; i >= 0; i-- {
+		key := make([]byte, len(ownerHash))
+		for j := range key {
+			key[j] = ownerHash[j] ^ byte(i)
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O)
-	} else {
-		// Revision 3+: decrypt O with RC4, then use it to derive user key
-		cipher, err := rc4.NewCipher(ownerHash)
+		cipher, err := rc4.NewCipher(key)
 		if err != nil {
 			return nil, err
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O[:min(32, len(encrypt.O))])
+		cipher.XORKeyStream(userPassword, userPassword)
 	}
 
-	// Now derive user key from decrypted O (which is the user password hash)
-	// Use decrypted O as if it were the user password
-	return DeriveEncryptionKey(decryptedO, encrypt, fileID, verbose)
+	// Now derive the key from the user password
+	return DeriveEncryptionKey(userPassword, encrypt, fileID, verbose)
 }
 
 // DeriveUserKeyFromOwner derives the user encryption key from owner key
@@ -277,55 +254,24 @@ func DeriveUserKeyFromOwner(ownerKey []byte, encrypt *types.PDFEncryption, verbo
 // Returns the first element of the ID array (ID[0])
 // File ID can be in hex format: <7FB157EB...> or binary: (binary data)
 func ExtractFileID(pdfBytes []byte, verbose bool) []byte {
-	pdfStr := string(pdfBytes)
-
-	// Find /ID in trailer - format: /ID [ <hex1> <hex2> ] or /ID [ (binary1) (binary2) ]
-	// Try hex format first: /ID[<hex><hex>] or /ID [<hex><hex>]
-	hexIDPattern := regexp.MustCompile(`/ID\s*\[\s*<([0-9A-Fa-f]+)>`)
-	hexMatch := hexIDPattern.FindStringSubmatch(pdfStr)
-	if hexMatch != nil {
-		// Decode hex string
-		hexStr := hexMatch[1]
-		fileID := parseHexString(hexStr)
-		if len(fileID) > 0 {
-			if verbose {
-				log.Printf("Extracted file ID[0] (hex): %d bytes, hex: %x", len(fileID), fileID)
-			}
-			return fileID
+	value := syntax.Get(trailerDict(pdfBytes), "ID")
+	if num, gen, ok := syntax.Ref(value); ok {
+		value = findObject(pdfBytes, num, gen, func(body []byte) bool { return body[0] == '[' })
+	}
+	if value == nil {
+		// No usable trailer: take the first thing that looks like an ID
+		if idx := idPattern.FindIndex(pdfBytes); idx != nil {
+			start := idx[1] - 1
+			value = pdfBytes[start:syntax.ValueEnd(pdfBytes, start)]
 		}
 	}
-
-	// Try alternative pattern without space: /ID[<hex>
-	hexIDPattern2 := regexp.MustCompile(`/ID\[<([0-9A-Fa-f]+)>`)
-	hexMatch2 := hexIDPattern2.FindStringSubmatch(pdfStr)
-	if hexMatch2 != nil {
-		hexStr := hexMatch2[1]
-		fileID := parseHexString(hexStr)
-		if len(fileID) > 0 {
+	if len(value) > 0 && value[0] == '[' {
+		start, end := syntax.Token(value, 1)
+		if fileID, ok := syntax.String(value[start:end]); ok {
 			if verbose {
-				log.Printf("Extracted file ID[0] (hex, alt pattern): %d bytes, hex: %x", len(fileID), fileID)
-			}
-			return fileID
-		}
-	}
-
-	// Try binary format: /ID [ (binary1) (binary2) ]
-	idPattern := regexp.MustCompile(`/ID\s*\[\s*\(`)
-	match := idPattern.FindStringIndex(pdfStr)
-	if match != nil {
-		// Find the first binary string in parentheses
-		idStart := match[1] - 1 // Position of '('
-		parenStart := bytes.Index(pdfBytes[idStart:], []byte("("))
-		if parenStart != -1 {
-			parenStart += idStart + 1
-			parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-			if parenEnd != -1 {
-				fileID := pdfBytes[parenStart : parenStart+parenEnd]
-				if verbose {
-					log.Printf("Extracted file ID[0] (binary): %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
-				}
-				return fileID
+				log.Printf("Extracted file ID[0]: %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
 			}
+			return append([]byte{}, fileID...)
 		}
 	}
 
@@ -337,6 +283,8 @@ func ExtractFileID(pdfBytes []byte, verbose bool) []byte {
 	return []byte{}
 }
 
+var idPattern = regexp.MustCompile(`/ID\s*\[`)
+
 // parseHexString parses a hex string like "0123456789ABCDEF" to bytes
 func parseHexString(hexStr string) []byte {
 	// Remove whitespace
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 648ec59..0b837ad 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -2,133 +2,67 @@ package encrypt
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"log"
 	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
-func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find /Encrypt reference in trailer
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+(\d+)\s+R`)
-	encryptMatch := encryptPattern.FindStringSubmatchIndex(pdfStr)
-
-	var encryptObjNum int
-	var err error
-
-	if encryptMatch == nil {
-		return nil, fmt.Errorf("/Encrypt dictionary not found")
-	}
-
-	encryptObjNum, err = strconv.Atoi(pdfStr[encryptMatch[2]:encryptMatch[3]])
-	if err != nil {
-		return nil, fmt.Errorf("invalid Encrypt object number: %v", err)
-	}
+// ErrNotEncrypted is returned by ParseEncryptionDictionary for a PDF without an
+// /Encrypt dictionary
+var ErrNotEncrypted = errors.New("/Encrypt dictionary not found")
 
-	if verbose {
-		log.Printf("Found /Encrypt dictionary: object %d", encryptObjNum)
-	}
+var encryptPattern = regexp.MustCompile(`/Encrypt[\x00\t\n\f\r ]*(?:\d+\s+\d+\s+R|<<)`)
 
-	// Find the Encrypt object
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", encryptObjNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex == -1 {
-		return nil, fmt.Errorf("Encrypt object %d not found", encryptObjNum)
+// ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
+func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
+	// Find /Encrypt in the trailer; without a usable trailer, the first thing
+	// that looks like it
+	trailer := trailerDict(pdfBytes)
+	value := syntax.Get(trailer, "Encrypt")
+	if trailer == nil {
+		if idx := encryptPattern.FindIndex(pdfBytes); idx != nil {
+			start := syntax.SkipSpace(pdfBytes, idx[0]+len("/Encrypt"))
+			value = pdfBytes[start:syntax.ValueEnd(pdfBytes, start)]
+		}
 	}
-
-	// Find dictionary content - need to handle nested dictionaries
-	dictStart := bytes.Index(pdfBytes[objIndex:], []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("Encrypt dictionary start not found")
+	if len(value) == 0 || string(value) == "null" {
+		return nil, ErrNotEncrypted
 	}
-	dictStart += objIndex
 
-	// Find matching >> (handle nested dictionaries)
-	depth := 0
-	dictEnd := dictStart
-	for i := dictStart; i < len(pdfBytes) && i < dictStart+2000; i++ {
-		if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '>' && pdfBytes[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				dictEnd = i + 2
-				break
-			}
-			i++ // Skip second '>'
+	dict := value
+	objNum, genNum, isRef := syntax.Ref(value)
+	if isRef {
+		if verbose {
+			log.Printf("Found /Encrypt dictionary: object %d", objNum)
+		}
+		dict = findObject(pdfBytes, objNum, genNum, func(body []byte) bool {
+			return syntax.Get(body, "Filter") != nil
+		})
+		if dict == nil {
+			return nil, fmt.Errorf("Encrypt object %d not found", objNum)
 		}
 	}
-
-	if dictEnd == dictStart {
-		return nil, fmt.Errorf("Encrypt dictionary end not found")
+	if _, _, ok := syntax.Entries(dict); !ok {
+		return nil, fmt.Errorf("Encrypt dictionary is malformed")
 	}
 
-	dictContent := pdfStr[dictStart:dictEnd]
-
 	if verbose {
-		log.Printf("Encrypt dictionary content (first 200 chars): %s", dictContent[:min(200, len(dictContent))])
-	}
-
-	encrypt := &types.PDFEncryption{}
-
-	// Parse /Filter
-	filterPattern := regexp.MustCompile(`/Filter\s+/(\w+)`)
-	if match := filterPattern.FindStringSubmatch(dictContent); match != nil {
-		encrypt.Filter = match[1]
-	}
-
-	// Parse /V (encryption version) - must be at top level, not in nested dicts
-	vPattern := regexp.MustCompile(`/V\s+(\d+)`)
-	matches := vPattern.FindAllStringSubmatch(dictContent, -1)
-	// Take the first match that's not inside a nested dictionary structure
-	for _, match := range matches {
-		// Check if it's at top level (simple heuristic: not immediately after /CF or /StdCF)
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// If we see /CF or /StdCF before this, it's nested - skip
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.V, _ = strconv.Atoi(match[1])
-			break
-		}
-	}
-
-	// Parse /R (revision) - must be at top level
-	rPattern := regexp.MustCompile(`/R\s+(\d+)`)
-	matches = rPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.R, _ = strconv.Atoi(match[1])
-			break
-		}
+		log.Printf("Encrypt dictionary content (first 200 chars): %s", dict[:min(200, len(dict))])
 	}
 
-	// Parse /Length (key length in bits) - look for top-level /Length
-	// Note: There may be nested /Length in /CF dictionaries, we want the top-level one
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	matches = lengthPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// Top-level /Length should not be inside /CF
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") {
-			keyBits, _ := strconv.Atoi(match[1])
-			if keyBits > 0 {
-				encrypt.KeyLength = keyBits / 8
-				break
-			}
-		}
+	encrypt := &types.PDFEncryption{
+		ObjNum: objNum,
+		Dict:   append([]byte(nil), dict...),
 	}
+	encrypt.Filter, _ = syntax.Name(syntax.Get(dict, "Filter"))
+	encrypt.SubFilter, _ = syntax.Name(syntax.Get(dict, "SubFilter"))
+	encrypt.V, _ = syntax.Int(syntax.Get(dict, "V"))
+	encrypt.R, _ = syntax.Int(syntax.Get(dict, "R"))
 
 	// Set defaults if not found
 	if encrypt.V == 0 {
@@ -137,153 +71,134 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	if encrypt.R == 0 {
 		encrypt.R = 4 // Default revision
 	}
-	if encrypt.KeyLength == 0 {
-		// Default key length based on revision
-		if encrypt.R == 2 {
-			encrypt.KeyLength = 5 // 40 bits
-		} else if encrypt.R >= 5 {
-			encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
-		} else {
-			encrypt.KeyLength = 16 // 128 bits for AES-128 (V4/R4)
+
+	// Key length: only versions 2 and 3 leave a choice
+	switch encrypt.V {
+	case 1:
+		encrypt.KeyLength = 5 // 40 bits
+	case 4:
+		encrypt.KeyLength = 16 // 128 bits
+	case 5:
+		encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
+	default:
+		encrypt.KeyLength = 5
+		if bits, ok := syntax.Int(syntax.Get(dict, "Length")); ok && bits >= 8 {
+			encrypt.KeyLength = bits / 8
 		}
 	}
 
-	// Parse /O (owner password hash) - binary data in parentheses or hex string
-	// Try hex format first: /O <hex>
-	oHexPattern := regexp.MustCompile(`/O\s*<([0-9A-Fa-f]+)>`)
-	oHexMatch := oHexPattern.FindStringSubmatch(dictContent)
-	if oHexMatch != nil {
-		hexStr := oHexMatch[1]
-		encrypt.O = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted O value (hex): %d bytes", len(encrypt.O))
-		}
-	} else {
-		// Try binary format: /O (binary)
-		oPattern := regexp.MustCompile(`/O\s*\(`)
-		oMatch := oPattern.FindStringIndex(dictContent)
-		if oMatch != nil {
-			oStartInDict := dictStart + oMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[oStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += oStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.O = make([]byte, parenEnd)
-					copy(encrypt.O, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted O value (binary): %d bytes", len(encrypt.O))
-					}
-				}
+	// Parse /P (permissions): 32 bits, which some files write unsigned
+	if p, err := strconv.ParseInt(string(syntax.Get(dict, "P")), 10, 64); err == nil {
+		encrypt.P = int32(uint32(p))
+	}
+
+	encrypt.EncryptMetadata = string(syntax.Get(dict, "EncryptMetadata")) != "false"
+
+	// Password validators and (V5) encrypted keys, in parentheses or hex
+	for _, entry := range []struct {
+		key   string
+		field *[]byte
+	}{{"O", &encrypt.O}, {"U", &encrypt.U}, {"OE", &encrypt.OE}, {"UE", &encrypt.UE}} {
+		if s, ok := syntax.String(syntax.Get(dict, entry.key)); ok {
+			*entry.field = append([]byte(nil), s...)
+			if verbose {
+				log.Printf("Extracted %s value: %d bytes", entry.key, len(s))
 			}
 		}
 	}
 
-	// Parse /U (user password hash) - binary data in parentheses or hex string
-	// Try hex format first: /U <hex>
-	uHexPattern := regexp.MustCompile(`/U\s*<([0-9A-Fa-f]+)>`)
-	uHexMatch := uHexPattern.FindStringSubmatch(dictContent)
-	if uHexMatch != nil {
-		hexStr := uHexMatch[1]
-		encrypt.U = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted U value (hex): %d bytes", len(encrypt.U))
-		}
-	} else {
-		// Try binary format: /U (binary)
-		uPattern := regexp.MustCompile(`/U\s*\(`)
-		uMatch := uPattern.FindStringIndex(dictContent)
-		if uMatch != nil {
-			uStartInDict := dictStart + uMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[uStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += uStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.U = make([]byte, parenEnd)
-					copy(encrypt.U, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted U value (binary): %d bytes", len(encrypt.U))
-					}
+	// Crypt filters
+	if cf := syntax.Get(dict, "CF"); cf != nil {
+		filters, _, _ := syntax.Entries(cf)
+		encrypt.CryptMethods = map[string]string{"Identity": "None"}
+		for _, filter := range filters {
+			method, ok := syntax.Name(syntax.Get(cf[filter.ValStart:filter.ValueEnd], "CFM"))
+			if !ok {
+				method = "None"
+				if syntax.Get(dict, "StmF") == nil && syntax.Get(dict, "StrF") == nil {
+					method = "" // no usable crypt filter at all: V decides
 				}
 			}
+			encrypt.CryptMethods[filter.Key] = method
+		}
+		if syntax.Get(dict, "StmF") != nil || syntax.Get(dict, "StrF") != nil {
+			encrypt.StreamMethod = filterMethod(dict, "StmF", encrypt)
+			encrypt.StringMethod = filterMethod(dict, "StrF", encrypt)
 		}
 	}
-
-	// Parse /P (permissions)
-	pPattern := regexp.MustCompile(`/P\s+(-?\d+)`)
-	if match := pPattern.FindStringSubmatch(dictContent); match != nil {
-		pVal, _ := strconv.ParseInt(match[1], 10, 32)
-		encrypt.P = int32(pVal)
+	if encrypt.V == 5 && len(encrypt.UE) > 32 {
+		// Written by older versions of this library: streams are encrypted with
+		// keys derived as for AES-128, strings are not encrypted
+		encrypt.StreamMethod, encrypt.StringMethod = "AESV2", "None"
 	}
 
-	// Parse /EncryptMetadata
-	if strings.Contains(dictContent, "/EncryptMetadata false") {
-		encrypt.EncryptMetadata = false
-	} else {
-		encrypt.EncryptMetadata = true
+	return encrypt, nil
+}
+
+// filterMethod returns the method of the crypt filter a /StmF or /StrF entry names
+func filterMethod(dict []byte, key string, encrypt *types.PDFEncryption) string {
+	name, ok := syntax.Name(syntax.Get(dict, key))
+	if !ok {
+		return "None"
+	}
+	if method, ok := encrypt.CryptMethods[name]; ok {
+		return method
 	}
+	return "None"
+}
 
-	// Parse /UE (encrypted user encryption key) - V5+ only
-	// Format: /UE <hex> or /UE (binary)
-	if encrypt.R >= 5 {
-		ueHexPattern := regexp.MustCompile(`/UE\s*<([0-9A-Fa-f]+)>`)
-		ueHexMatch := ueHexPattern.FindStringSubmatch(dictContent)
-		if ueHexMatch != nil {
-			hexStr := ueHexMatch[1]
-			encrypt.UE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted UE value (hex): %d bytes", len(encrypt.UE))
-			}
-		} else {
-			uePattern := regexp.MustCompile(`/UE\s*\(`)
-			ueMatch := uePattern.FindStringIndex(dictContent)
-			if ueMatch != nil {
-				ueStartInDict := dictStart + ueMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[ueStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += ueStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.UE = make([]byte, parenEnd)
-						copy(encrypt.UE, pdfBytes[parenStart:parenStart+parenEnd])
-						if verbose {
-							log.Printf("Extracted UE value (binary): %d bytes", len(encrypt.UE))
-						}
-					}
+// trailerDict returns the newest trailer: the trailer dictionary or the
+// cross-reference stream's dictionary that the last startxref leads to. It
+// returns nil when that leads nowhere.
+func trailerDict(pdfBytes []byte) []byte {
+	if idx := bytes.LastIndex(pdfBytes, []byte("startxref")); idx != -1 {
+		start, end := syntax.Token(pdfBytes, idx+len("startxref"))
+		offset, err := strconv.Atoi(string(pdfBytes[start:end]))
+		if err == nil && offset >= 0 && offset < len(pdfBytes) {
+			section := pdfBytes[offset:]
+			if i := syntax.SkipSpace(section, 0); bytes.HasPrefix(section[i:], []byte("xref")) {
+				if t := bytes.Index(section, []byte("trailer")); t != -1 {
+					return dictAt(section, t+len("trailer"))
 				}
+			} else if header := objHeaderPattern.FindIndex(section); header != nil {
+				return dictAt(section, header[1])
 			}
 		}
+	}
+	if idx := bytes.LastIndex(pdfBytes, []byte("trailer")); idx != -1 {
+		return dictAt(pdfBytes, idx+len("trailer"))
+	}
+	return nil
+}
 
-		// Parse /OE (encrypted owner encryption key) - V5+ only
-		oeHexPattern := regexp.MustCompile(`/OE\s*<([0-9A-Fa-f]+)>`)
-		oeHexMatch := oeHexPattern.FindStringSubmatch(dictContent)
-		if oeHexMatch != nil {
-			hexStr := oeHexMatch[1]
-			encrypt.OE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted OE value (hex): %d bytes", len(encrypt.OE))
-			}
-		} else {
-			oePattern := regexp.MustCompile(`/OE\s*\(`)
-			oeMatch := oePattern.FindStringIndex(dictContent)
-			if oeMatch != nil {
-				oeStartInDict := dictStart + oeMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[oeStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += oeStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.OE = make([]byte, parenEnd)
-						copy(encrypt.OE, pdfBytes[oeStartInDict:oeStartInDict+parenEnd])
-						if verbose {
-							log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
-						}
-					}
-				}
-			}
-		}
+var objHeaderPattern = regexp.MustCompile(`^\s*\d+\s+\d+\s+obj`)
+
+// dictAt returns the text of the dictionary at i, or nil
+func dictAt(b []byte, i int) []byte {
+	i = syntax.SkipSpace(b, i)
+	if !bytes.HasPrefix(b[min(i, len(b)):], []byte("<<")) {
+		return nil
 	}
+	dict := b[i:syntax.ValueEnd(b, i)]
+	if _, _, ok := syntax.Entries(dict); !ok {
+		return nil
+	}
+	return dict
+}
 
-	return encrypt, nil
+// findObject returns the value of the newest object with the given number that
+// is accepted, or nil
+func findObject(pdfBytes []byte, objNum, genNum int, accept func(body []byte) bool) []byte {
+	pattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+%d\s+obj\b`, objNum, genNum))
+	matches := pattern.FindAllIndex(pdfBytes, -1)
+	for i := len(matches) - 1; i >= 0; i-- {
+		start := syntax.SkipSpace(pdfBytes, matches[i][1])
+		if start >= len(pdfBytes) {
+			continue
+		}
+		if body := pdfBytes[start:syntax.ValueEnd(pdfBytes, start)]; len(body) > 0 && accept(body) {
+			return body
+		}
+	}
+	return nil
 }
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 7fce53e..77c907f 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/core/write"
@@ -97,16 +98,17 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 			m.writer.SetInfo(infoObjNum)
 		}
 	}
-	if trailer.EncryptRef != "" {
-		encryptObjNum, err := parseObjectRef(trailer.EncryptRef)
-		if err == nil {
-			m.writer.SetEncryptRef(encryptObjNum)
-		}
-	}
 
-	// Set encryption if present
-	if m.pdf.IsEncrypted() {
-		m.writer.SetEncryption(m.pdf.Encryption(), nil) // fileID will be regenerated
+	// Keep the encryption: same dictionary, same keys, which depend on the file ID
+	if info := m.pdf.Encryption(); info != nil {
+		encryptObjNum := info.ObjNum
+		if encryptObjNum == 0 {
+			encryptObjNum = m.writer.AddObject(info.Dict)
+		} else {
+			m.writer.SetObject(encryptObjNum, info.Dict)
+		}
+		m.writer.SetEncryptRef(encryptObjNum)
+		m.writer.SetEncryption(info, encrypt.ExtractFileID(m.pdfBytes, false))
 	}
 
 	return m.writer.Bytes()
diff --git a/core/parse/api.go b/core/parse/api.go
index 00d601e..e28b5e3 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -28,6 +28,7 @@
 package parse
 
 import (
+	"errors"
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -97,7 +98,7 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 
 	// Handle encryption first
 	if err := pdf.handleEncryption(); err != nil {
-		return nil, types.WrapError(types.ErrCodeDecryptionFailed, "encryption error", err)
+		return nil, err
 	}
 
 	// Parse based on mode
@@ -116,23 +117,18 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 
 // handleEncryption checks for encryption and validates password
 func (p *PDF) handleEncryption() error {
-	// Try to parse encryption dictionary
-	enc, err := encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose)
-	if err != nil {
-		// No encryption or parse error - assume unencrypted
+	_, enc, err := encrypt.DecryptPDF(p.raw, p.opts.Password, p.opts.Verbose)
+	switch {
+	case err == nil:
+		p.encryption = enc
 		return nil
+	case errors.Is(err, encrypt.ErrNotEncrypted):
+		return nil
+	case errors.Is(err, types.ErrWrongPassword):
+		return types.WrapError(types.ErrCodeWrongPassword, "decryption failed (wrong password?)", err)
+	default:
+		return types.WrapError(types.ErrCodeDecryptionFailed, "encryption error", err)
 	}
-
-	if enc != nil {
-		// PDF is encrypted - validate password
-		_, validatedEnc, err := encrypt.DecryptPDF(p.raw, p.opts.Password, p.opts.Verbose)
-		if err != nil {
-			return types.WrapError(types.ErrCodeWrongPassword, "decryption failed (wrong password?)", err)
-		}
-		p.encryption = validatedEnc
-	}
-
-	return nil
 }
 
 // parseBytePerfect parses preserving all raw bytes
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 550f290..036e311 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -170,38 +171,24 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 			if verbose {
 				log.Printf("Decrypting stream: %d bytes, objNum=%d, genNum=%d", len(streamData), objNum, genNum)
 			}
-			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
-			if err == nil {
-				if verbose {
-					log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
-				}
-				// Update /Length in the dictionary to reflect decrypted size
-				newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
-				dictPart = directLengthPattern.ReplaceAll(dictPart, []byte(newLength))
-
-				// Reconstruct content with updated dictionary and decrypted stream
-				newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
-				newContent = append(newContent, dictPart...)
-				newContent = append(newContent, []byte("stream\n")...)
-				newContent = append(newContent, decryptedStream...)
-				newContent = append(newContent, []byte("\nendstream")...)
-				content = newContent
-
-				if verbose {
-					log.Printf("Reconstructed content: %d bytes, new dict: %s", len(content), string(dictPart[:min(100, len(dictPart))]))
-				}
-			} else if verbose {
-				log.Printf("Decryption failed: %v", err)
+			decryptedStream, err := encrypt.DecryptStream(streamData, objData[ext.dictStart:ext.dictEnd], objNum, genNum, encryptInfo)
+			if err != nil {
+				return nil, fmt.Errorf("failed to decrypt object %d: %w", objNum, err)
 			}
+			if verbose {
+				log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
+			}
+
+			// Reconstruct content with the decrypted stream and its length
+			newContent := syntax.Set(append([]byte(nil), dictPart...), "Length", []byte(strconv.Itoa(len(decryptedStream))))
+			newContent = append(newContent, []byte("stream\n")...)
+			newContent = append(newContent, decryptedStream...)
+			newContent = append(newContent, []byte("\nendstream")...)
+			content = newContent
 		}
-	} else if encryptInfo != nil {
-		// Not a stream - decrypt string values in dictionary
-		// For now, just decrypt the entire content (simplified approach)
-		// TODO: Parse dictionary properly and decrypt only string values
-		decrypted, err := encrypt.DecryptObject(content, objNum, genNum, encryptInfo)
-		if err == nil {
-			content = decrypted
-		}
+	}
+	if encryptInfo != nil {
+		content = encrypt.DecryptStrings(content, objNum, genNum, encryptInfo)
 	}
 
 	// Reconstruct full object
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 6a6f658..6830109 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -287,8 +287,9 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, stream
 		return nil, fmt.Errorf("invalid offset %d for object stream %d", streamOffset, streamObjNum)
 	}
 	objSection := pdfBytes[streamOffset:]
-	header := regexp.MustCompile(fmt.Sprintf(`^%d\s+\d+\s+obj`, streamObjNum))
-	if !header.Match(objSection[:min(50, len(objSection))]) {
+	header := regexp.MustCompile(fmt.Sprintf(`^%d\s+(\d+)\s+obj`, streamObjNum))
+	headerMatch := header.FindSubmatch(objSection[:min(50, len(objSection))])
+	if headerMatch == nil {
 		return nil, fmt.Errorf("object stream %d not found at offset %d", streamObjNum, streamOffset)
 	}
 
@@ -301,7 +302,8 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, stream
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, streamObjNum, 0, encryptInfo)
+		genNum, _ := strconv.Atoi(string(headerMatch[1]))
+		decrypted, err := encrypt.DecryptStream(streamData, objSection[ext.dictStart:ext.dictEnd], streamObjNum, genNum, encryptInfo)
 		if err != nil {
 			return nil, fmt.Errorf("failed to decrypt object stream: %v", err)
 		}
diff --git a/core/syntax/syntax.go b/core/syntax/syntax.go
index 937ae6c..e961b9d 100644
--- a/core/syntax/syntax.go
+++ b/core/syntax/syntax.go
@@ -216,6 +216,34 @@ func IsStream(obj []byte) bool {
 	return len(head(body)) < len(body)
 }
 
+// Stream splits a stream object's text into its dictionary and its data.
+func Stream(obj []byte) (dict, data []byte, ok bool) {
+	body := Body(obj)
+	dict = head(body)
+	if len(dict) == len(body) {
+		return nil, nil, false
+	}
+	data = body[SkipSpace(body, len(dict))+len("stream"):]
+	if bytes.HasPrefix(data, []byte("\r\n")) {
+		data = data[2:]
+	} else if len(data) > 0 && (data[0] == '\n' || data[0] == '\r') {
+		data = data[1:]
+	}
+	if n, ok := Int(Get(dict, "Length")); ok && n >= 0 && n <= len(data) &&
+		bytes.HasPrefix(bytes.TrimLeft(data[n:], "\r\n"), []byte("endstream")) {
+		return dict, data[:n], true
+	}
+	if end := bytes.LastIndex(data, []byte("endstream")); end != -1 {
+		data = data[:end]
+	}
+	if bytes.HasSuffix(data, []byte("\r\n")) {
+		data = data[:len(data)-2]
+	} else if bytes.HasSuffix(data, []byte("\n")) || bytes.HasSuffix(data, []byte("\r")) {
+		data = data[:len(data)-1]
+	}
+	return dict, data, true
+}
+
 // Entry is one entry of a dictionary: its key (decoded, without the slash) and
 // where key and value lie in the text.
 type Entry struct {
@@ -525,9 +553,9 @@ func MapRefs(obj []byte, f func(num, gen int) string) []byte {
 	})
 }
 
-// MapStrings returns the object's text with every string replaced by a string
-// of the bytes f returns. Stream data stays as it is.
-func MapStrings(obj []byte, f func(s []byte) []byte) []byte {
+// MapStrings returns the object's text with every string replaced by the text f
+// returns for its bytes. Stream data stays as it is.
+func MapStrings(obj []byte, f func(s []byte) string) []byte {
 	return mapTokens(obj, func(b []byte, start, end int) ([]byte, int, bool) {
 		if b[start] != '(' && (b[start] != '<' || bytes.HasPrefix(b[start:], []byte("<<"))) {
 			return nil, end, false
@@ -536,7 +564,7 @@ func MapStrings(obj []byte, f func(s []byte) []byte) []byte {
 		if !ok {
 			return nil, end, false
 		}
-		return []byte(fmt.Sprintf("<%X>", f(s))), end, true
+		return []byte(f(s)), end, true
 	})
 }
 
diff --git a/core/write/encryption_v5.go b/core/write/encryption_v5.go
index 3b86c18..4ac8f0d 100644
--- a/core/write/encryption_v5.go
+++ b/core/write/encryption_v5.go
@@ -4,94 +4,50 @@ import (
 	"bytes"
 	"crypto/aes"
 	"crypto/rand"
-	"crypto/sha256"
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// SetupAES256Encryption creates an encryption dictionary for AES-256 (V5/R5/R6)
-// Based on ISO 32000-2 section 7.6.4
+// SetupAES256Encryption creates an encryption dictionary for AES-256 (V5/R5)
+// Based on ISO 32000-2 section 7.6.4. Without an owner password the user
+// password is the owner's, too.
 func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, permissions int32, encryptMetadata bool) (*types.PDFEncryption, error) {
-	// Prepare file ID (use first 8 bytes, pad/truncate to 8)
-	fileID8 := make([]byte, 8)
-	if len(fileID) >= 8 {
-		copy(fileID8, fileID[:8])
-	} else if len(fileID) > 0 {
-		copy(fileID8, fileID)
+	const revision = 5
+	if len(ownerPassword) == 0 {
+		ownerPassword = userPassword
 	}
 
-	// Derive user password key
-	userPasswordKey, err := deriveEncryptionKeyV5(userPassword, fileID8)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive user password key: %v", err)
-	}
-
-	// Derive owner password key
-	ownerPasswordKey, err := deriveEncryptionKeyV5(ownerPassword, fileID8)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive owner password key: %v", err)
-	}
-
-	// Generate random user encryption key (32 bytes for AES-256)
-	userEncryptionKey := make([]byte, 32)
-	if _, err := rand.Read(userEncryptionKey); err != nil {
+	// Generate the random file encryption key (32 bytes for AES-256) and salts:
+	// validation and key salt of the user, then those of the owner
+	fileKey := make([]byte, 32)
+	if _, err := rand.Read(fileKey); err != nil {
 		return nil, fmt.Errorf("failed to generate encryption key: %v", err)
 	}
-
-	// Generate random owner encryption key (32 bytes)
-	ownerEncryptionKey := make([]byte, 32)
-	if _, err := rand.Read(ownerEncryptionKey); err != nil {
-		return nil, fmt.Errorf("failed to generate owner encryption key: %v", err)
-	}
-
-	// Generate random salts
-	validationSalt := make([]byte, 8)
-	userKeySalt := make([]byte, 8)
-	ownerValidationSalt := make([]byte, 8)
-	ownerKeySalt := make([]byte, 8)
-
-	if _, err := rand.Read(validationSalt); err != nil {
-		return nil, fmt.Errorf("failed to generate validation salt: %v", err)
-	}
-	if _, err := rand.Read(userKeySalt); err != nil {
-		return nil, fmt.Errorf("failed to generate user key salt: %v", err)
-	}
-	if _, err := rand.Read(ownerValidationSalt); err != nil {
-		return nil, fmt.Errorf("failed to generate owner validation salt: %v", err)
-	}
-	if _, err := rand.Read(ownerKeySalt); err != nil {
-		return nil, fmt.Errorf("failed to generate owner key salt: %v", err)
+	salts := make([]byte, 32)
+	if _, err := rand.Read(salts); err != nil {
+		return nil, fmt.Errorf("failed to generate salts: %v", err)
 	}
 
-	// Compute U value (user password validation)
-	uValue, err := computeUValueV5(userPassword, userPasswordKey, validationSalt, userKeySalt)
-	if err != nil {
-		return nil, fmt.Errorf("failed to compute U value: %v", err)
-	}
+	// U and O values: hash (32 bytes), validation salt (8), key salt (8). The
+	// owner's hashes include the U value.
+	uValue := append(encrypt.HashV5(userPassword, salts[:8], nil, revision), salts[:16]...)
+	oValue := append(encrypt.HashV5(ownerPassword, salts[16:24], uValue, revision), salts[16:]...)
 
-	// Compute O value (owner password validation)
-	// For V5, O value uses the U value (48 bytes), not the user encryption key
-	oValue, err := computeOValueV5(ownerPassword, ownerPasswordKey, ownerValidationSalt, ownerKeySalt, uValue)
+	// Wrap the file encryption key with either password
+	ueValue, err := encrypt.WrapKeyV5(fileKey, encrypt.HashV5(userPassword, salts[8:16], nil, revision))
 	if err != nil {
-		return nil, fmt.Errorf("failed to compute O value: %v", err)
+		return nil, fmt.Errorf("failed to wrap encryption key with user key: %v", err)
 	}
-
-	// Wrap user encryption key with user password key
-	ueValue, err := wrapKeyV5(userEncryptionKey, userPasswordKey)
+	oeValue, err := encrypt.WrapKeyV5(fileKey, encrypt.HashV5(ownerPassword, salts[24:], uValue, revision))
 	if err != nil {
-		return nil, fmt.Errorf("failed to wrap user encryption key: %v", err)
+		return nil, fmt.Errorf("failed to wrap encryption key with owner key: %v", err)
 	}
 
-	// Wrap user encryption key with owner password key (OE contains user key wrapped with owner key)
-	oeValue, err := wrapKeyV5(userEncryptionKey, ownerPasswordKey)
-	if err != nil {
-		return nil, fmt.Errorf("failed to wrap user encryption key with owner key: %v", err)
-	}
-
-	encrypt := &types.PDFEncryption{
+	return &types.PDFEncryption{
 		V:               5,
-		R:               5,
+		R:               revision,
 		KeyLength:       32, // 256 bits
 		Filter:          "Standard",
 		P:               permissions,
@@ -100,124 +56,26 @@ func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, pe
 		U:               uValue,
 		UE:              ueValue,
 		OE:              oeValue,
-		EncryptKey:      userEncryptionKey, // Store the actual encryption key
-	}
-
-	return encrypt, nil
+		EncryptKey:      fileKey, // Store the actual encryption key
+	}, nil
 }
 
-// deriveEncryptionKeyV5 derives a 32-byte key from password using SHA-256
-// Based on ISO 32000-2 section 7.6.4.3.3
-func deriveEncryptionKeyV5(password []byte, fileID []byte) ([]byte, error) {
-	// Concatenate password + fileID (8 bytes)
-	input := make([]byte, len(password)+8)
-	copy(input, password)
-	copy(input[len(password):], fileID)
-
-	// SHA-256 hash
-	hash := sha256.Sum256(input)
-	key := hash[:]
-
-	// Iterate 64 times
-	for i := 0; i < 64; i++ {
-		hash = sha256.Sum256(key)
-		key = hash[:]
-	}
-
-	return key, nil
-}
-
-// computeUValueV5 computes the U value for user password validation
-// Based on ISO 32000-2 section 7.6.4.4.9
-func computeUValueV5(password, passwordKey, validationSalt, userKeySalt []byte) ([]byte, error) {
-	// Compute SHA-256(password + validation_salt)
-	hash := sha256.New()
-	hash.Write(password)
-	hash.Write(validationSalt)
-	hashed := hash.Sum(nil)
-
-	// Encrypt with AES-128 ECB using first 16 bytes of password-derived key
-	encryptKey := passwordKey[:16]
-	block, err := aes.NewCipher(encryptKey)
+// permsV5 computes the /Perms value: the permissions encrypted with the file key
+// (Algorithm 10 from ISO 32000-2)
+func permsV5(info *types.PDFEncryption) []byte {
+	block, err := aes.NewCipher(info.EncryptKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+		return nil
 	}
-
-	// Encrypt hash (32 bytes) in 2 blocks of 16 bytes each (ECB mode)
-	encrypted := make([]byte, 32)
-	block.Encrypt(encrypted[:16], hashed[:16])
-	block.Encrypt(encrypted[16:], hashed[16:])
-
-	// U value: validation_salt (8) + encrypted_hash (32) + user_key_salt (8) = 48 bytes
-	result := make([]byte, 48)
-	copy(result[:8], validationSalt)
-	copy(result[8:40], encrypted)
-	copy(result[40:48], userKeySalt)
-
-	return result, nil
-}
-
-// computeOValueV5 computes the O value for owner password validation
-// Based on ISO 32000-2 section 7.6.4.4.10
-func computeOValueV5(ownerPassword, ownerPasswordKey, ownerValidationSalt, ownerKeySalt []byte, uValue []byte) ([]byte, error) {
-	// Compute SHA-256(owner_password + owner_validation_salt + U_value)
-	hash := sha256.New()
-	hash.Write(ownerPassword)
-	hash.Write(ownerValidationSalt)
-	hash.Write(uValue) // U value is 48 bytes
-	hashed := hash.Sum(nil)
-
-	// Encrypt with AES-128 ECB using first 16 bytes of owner password-derived key
-	encryptKey := ownerPasswordKey[:16]
-	block, err := aes.NewCipher(encryptKey)
-	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+	perms := []byte{byte(info.P), byte(info.P >> 8), byte(info.P >> 16), byte(info.P >> 24), 0xFF, 0xFF, 0xFF, 0xFF, 'F', 'a', 'd', 'b', 0, 0, 0, 0}
+	if info.EncryptMetadata {
+		perms[8] = 'T'
 	}
-
-	// Encrypt hash (32 bytes) in 2 blocks
-	encrypted := make([]byte, 32)
-	block.Encrypt(encrypted[:16], hashed[:16])
-	block.Encrypt(encrypted[16:], hashed[16:])
-
-	// O value: owner_validation_salt (8) + encrypted_hash (32) + owner_key_salt (8) = 48 bytes
-	result := make([]byte, 48)
-	copy(result[:8], ownerValidationSalt)
-	copy(result[8:40], encrypted)
-	copy(result[40:48], ownerKeySalt)
-
-	return result, nil
-}
-
-// wrapKeyV5 wraps an encryption key using AES-128 ECB mode
-// Based on ISO 32000-2 - used for /UE and /OE
-func wrapKeyV5(key, wrappingKey []byte) ([]byte, error) {
-	if len(wrappingKey) < 16 {
-		return nil, fmt.Errorf("wrapping key too short: %d bytes (need at least 16)", len(wrappingKey))
-	}
-
-	// Use first 16 bytes of wrapping key
-	wrapKey := wrappingKey[:16]
-
-	// Add PKCS#7 padding
-	paddingLen := 16 - (len(key) % 16)
-	padded := make([]byte, len(key)+paddingLen)
-	copy(padded, key)
-	for i := len(key); i < len(padded); i++ {
-		padded[i] = byte(paddingLen)
-	}
-
-	// Encrypt in ECB mode (each 16-byte block independently)
-	block, err := aes.NewCipher(wrapKey)
-	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
-	}
-
-	wrapped := make([]byte, len(padded))
-	for i := 0; i < len(padded); i += 16 {
-		block.Encrypt(wrapped[i:], padded[i:i+16])
+	if _, err := rand.Read(perms[12:]); err != nil {
+		return nil
 	}
-
-	return wrapped, nil
+	block.Encrypt(perms, perms)
+	return perms
 }
 
 // CreateEncryptionDictionary creates the encryption dictionary object content for V5
@@ -262,6 +120,12 @@ func CreateEncryptionDictionary(encrypt *types.PDFEncryption) []byte {
 		buf.WriteString(">\n")
 	}
 
+	if encrypt.V == 5 {
+		buf.WriteString("/CF << /StdCF << /Type /CryptFilter /CFM /AESV3 /AuthEvent /DocOpen /Length 32 >> >>\n")
+		buf.WriteString("/StmF /StdCF\n/StrF /StdCF\n")
+		buf.WriteString(fmt.Sprintf("/Perms <%X>\n", permsV5(encrypt)))
+	}
+
 	if !encrypt.EncryptMetadata {
 		buf.WriteString("/EncryptMetadata false\n")
 	}
diff --git a/core/write/writer.go b/core/write/writer.go
index aab2932..32a47a3 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -4,16 +4,14 @@ package write
 import (
 	"bytes"
 	"compress/zlib"
-	"crypto/aes"
-	"crypto/cipher"
-	"crypto/md5"
-	"crypto/rand"
 	"fmt"
 	"io"
 	"sort"
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -291,6 +289,15 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		size++
 	}
 
+	// The encryption may come from another document, where its dictionary had
+	// another number
+	var encryptInfo *types.PDFEncryption
+	if w.encryptInfo != nil && len(w.encryptInfo.EncryptKey) > 0 {
+		info := *w.encryptInfo
+		info.ObjNum = 0
+		encryptInfo = &info
+	}
+
 	// Collect and sort object numbers
 	var objNums []int
 	for num := range objects {
@@ -320,34 +327,21 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		buf.WriteString(fmt.Sprintf("%d %d obj\n", objNum, obj.Generation))
 
 		// Write content
+		content := obj.Content
 		if obj.Stream != nil {
 			// Stream object
-			content := w.formatDictionary(obj.Dict)
-
-			// Encrypt stream if needed
-			streamData := obj.Stream
-			if w.encryptInfo != nil {
-				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
-				if err == nil {
-					streamData = encrypted
-					// Update length in dictionary
-					dict, _ := streamParts(obj.Dict, streamData, false)
-					content = w.formatDictionary(dict)
-				}
+			content = w.formatDictionary(obj.Dict)
+			content = append(content, "\nstream\n"...)
+			content = append(content, obj.Stream...)
+			content = append(content, "\nendstream"...)
+		}
+		if encryptInfo != nil && fmt.Sprintf("%d 0 R", objNum) != w.encryptRef {
+			content, err = encryptObject(content, obj, encryptInfo)
+			if err != nil {
+				return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
 			}
-
-			buf.Write(content)
-			buf.WriteString("\nstream\n")
-			buf.Write(streamData)
-			buf.WriteString("\nendstream")
-		} else if obj.Content != nil {
-			// Encrypt content if needed (for non-stream objects like strings in dicts)
-			content := obj.Content
-			// Note: For non-stream objects, encryption is more complex
-			// (need to encrypt individual strings, not the whole object)
-			// For simplicity, we skip encryption of non-stream content here
-			buf.Write(content)
 		}
+		buf.Write(content)
 
 		buf.WriteString("\nendobj\n")
 	}
@@ -473,71 +467,22 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 	}
 }
 
-// encryptStream encrypts stream data using the PDF's encryption settings
-func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
-	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
-		return data, nil
-	}
-
-	// Derive object-specific key (same as decrypt)
-	pack1 := []byte{byte(objNum & 0xff), byte((objNum >> 8) & 0xff), byte((objNum >> 16) & 0xff)}
-	pack2 := []byte{byte(genNum & 0xff), byte((genNum >> 8) & 0xff)}
-
-	n := w.encryptInfo.KeyLength
-	if n == 0 {
-		n = 5
-	}
-
-	keyData := make([]byte, n+5)
-	copy(keyData, w.encryptInfo.EncryptKey[:n])
-	copy(keyData[n:], pack1)
-	copy(keyData[n+3:], pack2)
-
-	keyHash := md5.New()
-	keyHash.Write(keyData)
-
-	// AES encryption
-	if w.encryptInfo.V == 4 || w.encryptInfo.V == 5 {
-		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
-		aesKeyHash := keyHash.Sum(nil)
-		aesKeyLen := min(n+5, 16)
-		aesKey := aesKeyHash[:aesKeyLen]
-
-		// Generate random IV
-		iv := make([]byte, 16)
-		if _, err := rand.Read(iv); err != nil {
-			return nil, err
-		}
-
-		// Pad data to multiple of 16 (PKCS#7)
-		padLen := 16 - (len(data) % 16)
-		padded := make([]byte, len(data)+padLen)
-		copy(padded, data)
-		for i := len(data); i < len(padded); i++ {
-			padded[i] = byte(padLen)
+// encryptObject encrypts an object's strings and stream data
+func encryptObject(content []byte, obj *PDFObject, info *types.PDFEncryption) ([]byte, error) {
+	if dict, data, ok := syntax.Stream(content); ok {
+		if obj.Stream != nil {
+			data = obj.Stream
 		}
-
-		// Encrypt
-		block, err := aes.NewCipher(aesKey)
+		encrypted, err := encrypt.EncryptStream(data, dict, obj.Number, obj.Generation, info)
 		if err != nil {
 			return nil, err
 		}
-
-		encrypted := make([]byte, len(padded))
-		mode := cipher.NewCBCEncrypter(block, iv)
-		mode.CryptBlocks(encrypted, padded)
-
-		// Prepend IV
-		result := make([]byte, 16+len(encrypted))
-		copy(result[:16], iv)
-		copy(result[16:], encrypted)
-
-		return result, nil
+		content = syntax.Set(append([]byte(nil), dict...), "Length", []byte(strconv.Itoa(len(encrypted))))
+		content = append(content, "\nstream\n"...)
+		content = append(content, encrypted...)
+		content = append(content, "\nendstream"...)
 	}
-
-	// RC4 encryption (V1, V2)
-	// Not implemented for now
-	return data, nil
+	return encrypt.EncryptStrings(content, obj.Number, obj.Generation, info)
 }
 
 // Bytes returns the complete PDF as a byte slice
diff --git a/types/types.go b/types/types.go
index 433b90f..bcb7d1b 100644
--- a/types/types.go
+++ b/types/types.go
@@ -16,6 +16,15 @@ type PDFEncryption struct {
 	P               int32  // Permissions
 	EncryptMetadata bool
 	EncryptKey      []byte // Master encryption key
+
+	// How streams and strings are encrypted: "V2" (RC4), "AESV2", "AESV3" or
+	// "None". Empty means what V says.
+	StreamMethod string
+	StringMethod string
+	CryptMethods map[string]string // Methods of the named crypt filters (/CF)
+
+	ObjNum int    // Object number of the encryption dictionary, 0 if it lies in the trailer
+	Dict   []byte // Text of the encryption dictionary
 }
 
 // FormData represents the data to fill into the form
-- 
2.43.0


From f54c157c1ca81f6a242c1938743dfcccfb6ea851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 07/28] fix: read trailer and stream keys only from the
 dictionary itself

---
 core/parse/document_parser.go |  4 ++--
 core/parse/incremental.go     |  6 +++---
 core/parse/object_stream.go   | 22 ++++++++++++--------
 core/parse/scan.go            | 39 ++++++++++++++++++++++++-----------
 4 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 15ce818..ea238e8 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -277,7 +277,7 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 
 	// A hybrid-reference file hides further objects in a cross-reference stream
 	if dict := dictAt(section, trailerIdx); dict != nil {
-		if match := xrefStmPattern.FindSubmatch(blankStrings(dict)); match != nil {
+		if match := xrefStmPattern.FindSubmatch(topLevel(dict)); match != nil {
 			addHiddenEntriesRaw(pdfBytes, string(match[1]), xref)
 		}
 	}
@@ -418,7 +418,7 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 	trailer.RawBytes = section[trailerIdx : trailerIdx+startxrefIdx]
 
 	// Parse trailer values
-	trailerStr := string(blankStrings(trailer.RawBytes))
+	trailerStr := string(topLevel(trailer.RawBytes))
 
 	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
 		trailer.Size, _ = strconv.Atoi(match[1])
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 1245274..1e617b1 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -206,7 +206,7 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 			return 0, fmt.Errorf("trailer dictionary not found")
 		}
 
-		trailerDict := string(blankStrings(dict))
+		trailerDict := string(topLevel(dict))
 		prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
 		match := prevPattern.FindStringSubmatch(trailerDict)
 		if match == nil {
@@ -217,7 +217,7 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 	}
 
 	// Cross-reference stream - /Prev is in the stream dictionary
-	dictSection := string(blankStrings(dictAt(section, 0)))
+	dictSection := string(topLevel(dictAt(section, 0)))
 	prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
 	match := prevPattern.FindStringSubmatch(dictSection)
 	if match == nil {
@@ -302,7 +302,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 	// Parse trailer for /Root, /Encrypt, /Prev, /Size
 	if trailerIdx != -1 {
 		if dict := dictAt(xrefData, trailerIdx); dict != nil {
-			trailerDict := string(blankStrings(dict))
+			trailerDict := string(topLevel(dict))
 
 			if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
 				section.Root = match[1]
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 6830109..b669143 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -66,7 +67,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	if dictStop == -1 {
 		return nil, fmt.Errorf("xref stream dictionary not closed")
 	}
-	dict := string(blankStrings(xrefSection[dictStart:dictStop]))
+	dict := string(topLevel(xrefSection[dictStart:dictStop]))
 
 	// Find /Size entry
 	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
@@ -127,19 +128,22 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 	// Check for predictor (PNG filter)
 	// Look for /DecodeParms with /Predictor
-	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(dict)
+	decodeparms := xrefSection[dictStart:dictStop]
+	decodeparms = syntax.Get(decodeparms, "DecodeParms")
+	if elements, ok := syntax.Array(decodeparms); ok && len(elements) > 0 {
+		decodeparms = elements[0]
+	}
 
-	if decodeparmsMatch != nil {
+	if decodeparms != nil {
 		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
 		columnsPattern := regexp.MustCompile(`/Columns\s+(\d+)`)
 
-		predictorMatch := predictorPattern.FindStringSubmatch(decodeparmsMatch[1])
-		columnsMatch := columnsPattern.FindStringSubmatch(decodeparmsMatch[1])
+		predictorMatch := predictorPattern.FindSubmatch(decodeparms)
+		columnsMatch := columnsPattern.FindSubmatch(decodeparms)
 
 		if predictorMatch != nil && columnsMatch != nil {
-			predictor, _ := strconv.Atoi(predictorMatch[1])
-			columns, _ := strconv.Atoi(columnsMatch[1])
+			predictor, _ := strconv.Atoi(string(predictorMatch[1]))
+			columns, _ := strconv.Atoi(string(columnsMatch[1]))
 
 			if predictor >= 10 && predictor <= 15 && columns > 0 && columns <= len(decompressed) {
 				// PNG predictor - apply filter
@@ -298,7 +302,7 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, stream
 		return nil, fmt.Errorf("object %d is not a stream", streamObjNum)
 	}
 	streamData := objSection[ext.streamStart:ext.streamEnd]
-	dictSection := string(blankStrings(objSection[ext.dictStart:ext.dictEnd]))
+	dictSection := string(topLevel(objSection[ext.dictStart:ext.dictEnd]))
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
diff --git a/core/parse/scan.go b/core/parse/scan.go
index 3be4cd1..86acd3c 100644
--- a/core/parse/scan.go
+++ b/core/parse/scan.go
@@ -97,19 +97,34 @@ func dictAt(data []byte, pos int) []byte {
 	return data[start:end]
 }
 
-// blankStrings returns a copy of data with the contents of strings and comments
-// replaced by blanks, so that patterns only match real keys.
-func blankStrings(data []byte) []byte {
+// topLevel returns a copy of a dictionary with the contents of strings, comments
+// and nested dictionaries replaced by blanks, so that patterns only match the
+// dictionary's own keys.
+func topLevel(data []byte) []byte {
 	out := append([]byte(nil), data...)
-	for i := 0; i < len(out); {
+	depth := 0
+	for i := 0; i < len(data); {
 		next := skipToken(data, i)
-		if next > i+1 && (data[i] == '(' || data[i] == '%' || (data[i] == '<' && data[i+1] != '<')) {
-			for j := i + 1; j < next && j < len(out); j++ {
-				if j < next-1 || data[i] == '%' {
-					out[j] = ' '
-				}
+		if next == i+2 && data[i] == '<' && data[i+1] == '<' {
+			depth++
+		}
+		keep := 0 // bytes of the token that stay
+		switch {
+		case depth > 1:
+		case data[i] == '(' || (data[i] == '<' && !(next == i+2 && data[i+1] == '<')):
+			keep = 1
+		case data[i] == '%':
+		default:
+			keep = next - i
+		}
+		for j := i + keep; j < next && j < len(out); j++ {
+			if keep != 1 || j < next-1 {
+				out[j] = ' '
 			}
 		}
+		if next == i+2 && data[i] == '>' {
+			depth--
+		}
 		i = next
 	}
 	return out
@@ -192,7 +207,7 @@ func (ext *objectExtent) findStreamData(data []byte) bool {
 	}
 	ext.streamStart = start
 
-	dict := blankStrings(data[ext.dictStart:ext.dictEnd])
+	dict := topLevel(data[ext.dictStart:ext.dictEnd])
 	if match := directLengthPattern.FindSubmatch(dict); match != nil && len(match[2]) == 0 {
 		length, err := strconv.Atoi(string(match[1]))
 		if err == nil && length <= len(data)-start {
@@ -233,7 +248,7 @@ func (ext *objectExtent) findStreamData(data []byte) bool {
 // /Root, the trailer dictionary some writers put after the stream.
 func xrefStreamTrailer(data []byte, startXRef int64) []byte {
 	section := data[startXRef:]
-	dict := blankStrings(dictAt(section, 0))
+	dict := topLevel(dictAt(section, 0))
 	if bytes.Contains(dict, []byte("/Root")) {
 		return dict
 	}
@@ -245,7 +260,7 @@ func xrefStreamTrailer(data []byte, startXRef int64) []byte {
 	if end := bytes.Index(rest, []byte("startxref")); end != -1 {
 		if trailer := bytes.Index(rest[:end], []byte("trailer")); trailer != -1 {
 			dict = append(dict, '\n')
-			dict = append(dict, blankStrings(dictAt(rest, trailer))...)
+			dict = append(dict, topLevel(dictAt(rest, trailer))...)
 		}
 	}
 	return dict
-- 
2.43.0


From 6a028a0eb9f718c6fed38cfe48f6fcd8b3abfa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 08/28] fix: read empty hex strings, default crypt filters and
 plain dictionaries typed like streams

---
 core/encrypt/parser.go        | 7 +++----
 core/manipulate/manipulate.go | 2 +-
 core/parse/scan.go            | 4 ++--
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 0b837ad..97e8ecc 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -111,17 +111,16 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	if cf := syntax.Get(dict, "CF"); cf != nil {
 		filters, _, _ := syntax.Entries(cf)
 		encrypt.CryptMethods = map[string]string{"Identity": "None"}
+		usable := syntax.Get(dict, "StmF") != nil || syntax.Get(dict, "StrF") != nil
 		for _, filter := range filters {
 			method, ok := syntax.Name(syntax.Get(cf[filter.ValStart:filter.ValueEnd], "CFM"))
 			if !ok {
 				method = "None"
-				if syntax.Get(dict, "StmF") == nil && syntax.Get(dict, "StrF") == nil {
-					method = "" // no usable crypt filter at all: V decides
-				}
 			}
+			usable = usable || ok
 			encrypt.CryptMethods[filter.Key] = method
 		}
-		if syntax.Get(dict, "StmF") != nil || syntax.Get(dict, "StrF") != nil {
+		if usable { // otherwise V decides
 			encrypt.StreamMethod = filterMethod(dict, "StmF", encrypt)
 			encrypt.StringMethod = filterMethod(dict, "StrF", encrypt)
 		}
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 77c907f..acd47d7 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -43,7 +43,7 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
-		if name := extractDictValue(string(obj), "/Type"); objNum == 0 || name == "/XRef" || name == "/ObjStm" {
+		if name := extractDictValue(string(obj), "/Type"); objNum == 0 || (syntax.IsStream(obj) && (name == "/XRef" || name == "/ObjStm")) {
 			// File structure, not document content: rebuilding makes its own
 			continue
 		}
diff --git a/core/parse/scan.go b/core/parse/scan.go
index 86acd3c..ab5cad4 100644
--- a/core/parse/scan.go
+++ b/core/parse/scan.go
@@ -64,7 +64,7 @@ func dictEnd(data []byte, start int) int {
 	depth := 0
 	for i := start; i < len(data); {
 		next := skipToken(data, i)
-		if next == i+2 {
+		if next == i+2 && data[i] == data[i+1] { // not an empty string "<>"
 			switch data[i] {
 			case '<':
 				depth++
@@ -122,7 +122,7 @@ func topLevel(data []byte) []byte {
 				out[j] = ' '
 			}
 		}
-		if next == i+2 && data[i] == '>' {
+		if next == i+2 && data[i] == '>' && data[i+1] == '>' {
 			depth--
 		}
 		i = next
-- 
2.43.0


From 9f40ae4b4f71ccfd3240a20aa88ec544bdaf4930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 09/28] fix: error classification helpers find the PDFError in
 a wrapped chain

---
 types/errors.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/types/errors.go b/types/errors.go
index ca28617..03d2a0a 100644
--- a/types/errors.go
+++ b/types/errors.go
@@ -1,6 +1,7 @@
 package types
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -154,17 +155,18 @@ var (
 	ErrIOError = &PDFError{Code: ErrCodeIOError}
 )
 
-// IsPDFError checks if an error is a PDFError and returns it
+// IsPDFError finds the first PDFError in an error's chain and returns it
 func IsPDFError(err error) (*PDFError, bool) {
-	if pdfErr, ok := err.(*PDFError); ok {
+	var pdfErr *PDFError
+	if errors.As(err, &pdfErr) && pdfErr != nil {
 		return pdfErr, true
 	}
 	return nil, false
 }
 
-// GetErrorCode extracts the error code from an error if it's a PDFError
+// GetErrorCode extracts the error code of the first PDFError in an error's chain
 func GetErrorCode(err error) (PDFErrorCode, bool) {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code, true
 	}
 	return "", false
@@ -172,7 +174,7 @@ func GetErrorCode(err error) (PDFErrorCode, bool) {
 
 // IsNotFound checks if the error is an object not found error
 func IsNotFound(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code == ErrCodeObjectNotFound || pdfErr.Code == ErrCodeFieldNotFound
 	}
 	return false
@@ -180,7 +182,7 @@ func IsNotFound(err error) bool {
 
 // IsEncryptionError checks if the error is related to encryption
 func IsEncryptionError(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		switch pdfErr.Code {
 		case ErrCodeEncrypted, ErrCodeDecryptionFailed, ErrCodeWrongPassword, ErrCodeUnsupportedCrypto:
 			return true
@@ -191,7 +193,7 @@ func IsEncryptionError(err error) bool {
 
 // IsValidationError checks if the error is a validation error
 func IsValidationError(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code == ErrCodeValidationError || pdfErr.Code == ErrCodeInvalidValue
 	}
 	return false
-- 
2.43.0


From 00060b34260cf12fab88e2aa8adffc01d8fef804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 10/28] fix: warning collectors keep handed-out lists and may
 be shared by goroutines

---
 types/warnings.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/types/warnings.go b/types/warnings.go
index 59f8557..2a13436 100644
--- a/types/warnings.go
+++ b/types/warnings.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"fmt"
+	"sync"
 	"time"
 )
 
@@ -71,8 +72,10 @@ func NewWarningWithCode(level WarningLevel, code, message string) *Warning {
 	}
 }
 
-// WarningCollector collects warnings during PDF processing
+// WarningCollector collects warnings during PDF processing. It may be used by
+// several goroutines at once.
 type WarningCollector struct {
+	mu       sync.RWMutex
 	warnings []*Warning
 	enabled  bool
 }
@@ -87,6 +90,8 @@ func NewWarningCollector(enabled bool) *WarningCollector {
 
 // Add adds a warning to the collector
 func (wc *WarningCollector) Add(warning *Warning) {
+	wc.mu.Lock()
+	defer wc.mu.Unlock()
 	if wc.enabled && warning != nil {
 		wc.warnings = append(wc.warnings, warning)
 	}
@@ -107,28 +112,38 @@ func (wc *WarningCollector) AddWarningWithCode(level WarningLevel, code, message
 	wc.Add(NewWarningWithCode(level, code, message))
 }
 
-// Warnings returns all collected warnings
+// Warnings returns all collected warnings, as a list of its own
 func (wc *WarningCollector) Warnings() []*Warning {
-	return wc.warnings
+	wc.mu.RLock()
+	defer wc.mu.RUnlock()
+	return append(make([]*Warning, 0, len(wc.warnings)), wc.warnings...)
 }
 
 // Count returns the number of warnings collected
 func (wc *WarningCollector) Count() int {
+	wc.mu.RLock()
+	defer wc.mu.RUnlock()
 	return len(wc.warnings)
 }
 
 // HasWarnings returns true if any warnings have been collected
 func (wc *WarningCollector) HasWarnings() bool {
+	wc.mu.RLock()
+	defer wc.mu.RUnlock()
 	return len(wc.warnings) > 0
 }
 
 // Clear clears all warnings
 func (wc *WarningCollector) Clear() {
+	wc.mu.Lock()
+	defer wc.mu.Unlock()
 	wc.warnings = wc.warnings[:0]
 }
 
 // FilterByLevel returns warnings filtered by level
 func (wc *WarningCollector) FilterByLevel(level WarningLevel) []*Warning {
+	wc.mu.RLock()
+	defer wc.mu.RUnlock()
 	result := make([]*Warning, 0)
 	for _, w := range wc.warnings {
 		if w.Level == level {
@@ -140,6 +155,8 @@ func (wc *WarningCollector) FilterByLevel(level WarningLevel) []*Warning {
 
 // GetByCode returns warnings filtered by code
 func (wc *WarningCollector) GetByCode(code string) []*Warning {
+	wc.mu.RLock()
+	defer wc.mu.RUnlock()
 	result := make([]*Warning, 0)
 	for _, w := range wc.warnings {
 		if w.Code == code {
@@ -151,15 +168,21 @@ func (wc *WarningCollector) GetByCode(code string) []*Warning {
 
 // Enable enables warning collection
 func (wc *WarningCollector) Enable() {
+	wc.mu.Lock()
+	defer wc.mu.Unlock()
 	wc.enabled = true
 }
 
 // Disable disables warning collection
 func (wc *WarningCollector) Disable() {
+	wc.mu.Lock()
+	defer wc.mu.Unlock()
 	wc.enabled = false
 }
 
 // IsEnabled returns whether warning collection is enabled
 func (wc *WarningCollector) IsEnabled() bool {
+	wc.mu.RLock()
+	defer wc.mu.RUnlock()
 	return wc.enabled
 }
-- 
2.43.0


From 1b23e6e11ac6cebaf415c7af6eeacf6c340fa09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 11/28] fix: decode filter chains, decode parameters and every
 predictor layout of streams

---
 core/parse/filters.go       | 174 +++++++++++++++++++++++++++++++++++-
 core/parse/object_stream.go | 131 +--------------------------
 2 files changed, 176 insertions(+), 129 deletions(-)

diff --git a/core/parse/filters.go b/core/parse/filters.go
index 46d3933..17b26f5 100644
--- a/core/parse/filters.go
+++ b/core/parse/filters.go
@@ -3,9 +3,12 @@ package parse
 
 import (
 	"bytes"
+	"compress/flate"
 	"compress/zlib"
 	"fmt"
 	"io"
+
+	"github.com/benedoc-inc/pdfer/core/syntax"
 )
 
 // DecodeFilter applies the appropriate filter to decode stream data
@@ -27,6 +30,173 @@ func DecodeFilter(data []byte, filterName string) ([]byte, error) {
 	}
 }
 
+// DecodeStream undoes every filter a stream's dictionary names, in order, with
+// their decode parameters. Values given by reference are looked up with
+// resolve, which may be nil. A Crypt filter is skipped: decryption has undone it.
+func DecodeStream(dict, data []byte, resolve func(objNum int) []byte) ([]byte, error) {
+	get := func(value []byte) []byte {
+		if num, _, ok := syntax.Ref(value); ok {
+			if resolve == nil {
+				return nil
+			}
+			return syntax.Body(resolve(num))
+		}
+		return value
+	}
+	list := func(value []byte) [][]byte {
+		value = get(value)
+		if elements, ok := syntax.Array(value); ok {
+			return elements
+		}
+		if len(value) == 0 {
+			return nil
+		}
+		return [][]byte{value}
+	}
+
+	filters := list(syntax.Get(dict, "Filter"))
+	parms := list(syntax.Get(dict, "DecodeParms"))
+	for i, filter := range filters {
+		name, ok := syntax.Name(get(filter))
+		if !ok {
+			if string(filter) == "null" {
+				continue
+			}
+			return nil, fmt.Errorf("invalid stream filter %q", filter)
+		}
+		if name == "Crypt" {
+			continue
+		}
+		var err error
+		if name == "FlateDecode" {
+			data, err = inflate(data)
+		} else {
+			data, err = DecodeFilter(data, name)
+		}
+		if err != nil {
+			return nil, fmt.Errorf("%s: %w", name, err)
+		}
+		if name == "FlateDecode" && i < len(parms) {
+			if data, err = undoPredictor(data, get(parms[i]), get); err != nil {
+				return nil, fmt.Errorf("%s: %w", name, err)
+			}
+		}
+	}
+	return data, nil
+}
+
+// inflate decompresses zlib data, and raw deflate data as some writers produce it
+func inflate(data []byte) ([]byte, error) {
+	decoded, err := DecodeFlateDecode(data)
+	if err == nil {
+		return decoded, nil
+	}
+	reader := flate.NewReader(bytes.NewReader(data))
+	defer reader.Close()
+	if raw, rawErr := io.ReadAll(reader); rawErr == nil {
+		return raw, nil
+	}
+	return nil, err
+}
+
+// undoPredictor reverses the prediction described by a filter's decode parameters
+func undoPredictor(data, parms []byte, get func([]byte) []byte) ([]byte, error) {
+	param := func(key string, missing int) int {
+		if n, ok := syntax.Int(get(syntax.Get(parms, key))); ok {
+			return n
+		}
+		return missing
+	}
+	predictor := param("Predictor", 1)
+	if predictor < 2 {
+		return data, nil
+	}
+	colors, bits, columns := param("Colors", 1), param("BitsPerComponent", 8), param("Columns", 1)
+	if colors < 1 || colors > 1<<10 || bits < 1 || bits > 16 || columns < 1 || columns > 1<<24 {
+		return nil, fmt.Errorf("invalid predictor parameters: %d colors, %d bits, %d columns", colors, bits, columns)
+	}
+	pixel := max(1, colors*bits/8)
+	rowSize := (colors*bits*columns + 7) / 8
+	if predictor == 2 {
+		return undoTIFFPredictor(data, colors, bits, columns), nil
+	}
+
+	// Every row starts with the tag of the PNG filter it was encoded with
+	decoded := make([]byte, 0, len(data))
+	previous := make([]byte, rowSize)
+	for len(data) > 0 {
+		tag, row := data[0], make([]byte, rowSize)
+		n := copy(row, data[1:])
+		data = data[1+n:]
+		for i := 0; i < n; i++ {
+			var left, upLeft byte
+			if i >= pixel {
+				left, upLeft = row[i-pixel], previous[i-pixel]
+			}
+			switch tag {
+			case 0: // None
+			case 1: // Sub
+				row[i] += left
+			case 2: // Up
+				row[i] += previous[i]
+			case 3: // Average
+				row[i] += byte((int(left) + int(previous[i])) / 2)
+			case 4: // Paeth
+				row[i] += paeth(left, previous[i], upLeft)
+			default:
+				return nil, fmt.Errorf("invalid PNG row filter %d", tag)
+			}
+		}
+		decoded = append(decoded, row[:n]...)
+		previous = row
+	}
+	return decoded, nil
+}
+
+// undoTIFFPredictor adds to every sample the one of the same colour before it in its row
+func undoTIFFPredictor(data []byte, colors, bits, columns int) []byte {
+	rowSize := (colors*bits*columns + 7) / 8
+	decoded := append([]byte(nil), data...)
+	sample := func(row []byte, k int) int {
+		v := 0
+		for b := k * bits; b < (k+1)*bits; b++ {
+			v = v<<1 | int(row[b/8]>>(7-b%8))&1
+		}
+		return v
+	}
+	for start := 0; start+rowSize <= len(decoded); start += rowSize {
+		row := decoded[start : start+rowSize]
+		for k := colors; k < colors*columns; k++ {
+			v := sample(row, k) + sample(row, k-colors)
+			for b := (k+1)*bits - 1; b >= k*bits; b-- {
+				row[b/8] = row[b/8]&^(1<<(7-b%8)) | byte(v&1)<<(7-b%8)
+				v >>= 1
+			}
+		}
+	}
+	return decoded
+}
+
+// paeth is the PNG Paeth predictor
+func paeth(a, b, c byte) byte {
+	p := int(a) + int(b) - int(c)
+	pa, pb, pc := absInt(p-int(a)), absInt(p-int(b)), absInt(p-int(c))
+	if pa <= pb && pa <= pc {
+		return a
+	}
+	if pb <= pc {
+		return b
+	}
+	return c
+}
+
+func absInt(n int) int {
+	if n < 0 {
+		return -n
+	}
+	return n
+}
+
 // DecodeFlateDecode decompresses zlib/deflate compressed data
 func DecodeFlateDecode(data []byte) ([]byte, error) {
 	reader, err := zlib.NewReader(bytes.NewReader(data))
@@ -48,7 +218,7 @@ func DecodeASCIIHex(data []byte) ([]byte, error) {
 
 	for _, b := range data {
 		// Skip whitespace
-		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' {
+		if syntax.IsSpace(b) {
 			continue
 		}
 
@@ -108,7 +278,7 @@ func DecodeASCII85(data []byte) ([]byte, error) {
 		b := data[i]
 
 		// Skip whitespace
-		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' {
+		if syntax.IsSpace(b) {
 			continue
 		}
 
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index b669143..305bd3d 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -2,16 +2,12 @@ package parse
 
 import (
 	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"fmt"
-	"io"
 	"regexp"
 	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
-	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -120,90 +116,12 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	}
 	streamContent := xrefSection[ext.streamStart:ext.streamEnd]
 
-	// Decompress (xref streams are NOT encrypted)
-	decompressed, err := inflateUnlessPlain(streamContent, dict)
+	// Undo its filters (xref streams are NOT encrypted)
+	decompressed, err := DecodeStream(xrefSection[dictStart:dictStop], streamContent, nil)
 	if err != nil {
 		return nil, fmt.Errorf("error decompressing xref stream: %v", err)
 	}
 
-	// Check for predictor (PNG filter)
-	// Look for /DecodeParms with /Predictor
-	decodeparms := xrefSection[dictStart:dictStop]
-	decodeparms = syntax.Get(decodeparms, "DecodeParms")
-	if elements, ok := syntax.Array(decodeparms); ok && len(elements) > 0 {
-		decodeparms = elements[0]
-	}
-
-	if decodeparms != nil {
-		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
-		columnsPattern := regexp.MustCompile(`/Columns\s+(\d+)`)
-
-		predictorMatch := predictorPattern.FindSubmatch(decodeparms)
-		columnsMatch := columnsPattern.FindSubmatch(decodeparms)
-
-		if predictorMatch != nil && columnsMatch != nil {
-			predictor, _ := strconv.Atoi(string(predictorMatch[1]))
-			columns, _ := strconv.Atoi(string(columnsMatch[1]))
-
-			if predictor >= 10 && predictor <= 15 && columns > 0 && columns <= len(decompressed) {
-				// PNG predictor - apply filter
-				rowSize := columns + 1 // +1 for filter byte
-				numRows := len(decompressed) / rowSize
-
-				decoded := make([]byte, numRows*columns)
-				prevRow := make([]byte, columns)
-
-				for row := 0; row < numRows; row++ {
-					rowStart := row * rowSize
-					if rowStart+rowSize > len(decompressed) {
-						break
-					}
-					filterByte := decompressed[rowStart]
-					rowData := decompressed[rowStart+1 : rowStart+rowSize]
-
-					switch filterByte {
-					case 0: // None
-						copy(decoded[row*columns:], rowData)
-					case 1: // Sub
-						for i := 0; i < columns; i++ {
-							left := byte(0)
-							if i > 0 {
-								left = decoded[row*columns+i-1]
-							}
-							decoded[row*columns+i] = rowData[i] + left
-						}
-					case 2: // Up (most common for Predictor 12)
-						for i := 0; i < columns; i++ {
-							decoded[row*columns+i] = rowData[i] + prevRow[i]
-						}
-					case 3: // Average
-						for i := 0; i < columns; i++ {
-							left := 0
-							if i > 0 {
-								left = int(decoded[row*columns+i-1])
-							}
-							decoded[row*columns+i] = rowData[i] + byte((left+int(prevRow[i]))/2)
-						}
-					case 4: // Paeth
-						for i := 0; i < columns; i++ {
-							var left, upLeft byte
-							if i > 0 {
-								left, upLeft = decoded[row*columns+i-1], prevRow[i-1]
-							}
-							decoded[row*columns+i] = rowData[i] + paeth(left, prevRow[i], upLeft)
-						}
-					default:
-						copy(decoded[row*columns:], rowData)
-					}
-
-					copy(prevRow, decoded[row*columns:row*columns+columns])
-				}
-
-				decompressed = decoded
-			}
-		}
-	}
-
 	// Parse entries
 	entrySize := w1 + w2 + w3
 	if entrySize == 0 {
@@ -314,8 +232,8 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, stream
 		streamData = decrypted
 	}
 
-	// Decompress stream data (FlateDecode)
-	decompressed, err := inflateUnlessPlain(streamData, dictSection)
+	// Undo its filters
+	decompressed, err := DecodeStream(objSection[ext.dictStart:ext.dictEnd], streamData, nil)
 	if err != nil {
 		return nil, fmt.Errorf("failed to decompress object stream: %v", err)
 	}
@@ -410,44 +328,3 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, stream
 
 	return objectData, nil
 }
-
-// inflateUnlessPlain decompresses stream data whose dictionary names a filter
-func inflateUnlessPlain(data []byte, dict string) ([]byte, error) {
-	if !strings.Contains(dict, "/Filter") {
-		return data, nil
-	}
-
-	// FlateDecode data is normally zlib-wrapped; accept raw deflate as well
-	zlibReader, err := zlib.NewReader(bytes.NewReader(data))
-	if err == nil {
-		var decompressed []byte
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err == nil {
-			return decompressed, nil
-		}
-	}
-	flateReader := flate.NewReader(bytes.NewReader(data))
-	defer flateReader.Close()
-	return io.ReadAll(flateReader)
-}
-
-// paeth is the PNG Paeth predictor
-func paeth(a, b, c byte) byte {
-	p := int(a) + int(b) - int(c)
-	pa, pb, pc := absInt(p-int(a)), absInt(p-int(b)), absInt(p-int(c))
-	if pa <= pb && pa <= pc {
-		return a
-	}
-	if pb <= pc {
-		return b
-	}
-	return c
-}
-
-func absInt(n int) int {
-	if n < 0 {
-		return -n
-	}
-	return n
-}
-- 
2.43.0


From 4a3503ee219e78596232b6d84691741d1f4bf7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 12/28] fix: extract content with an interpreter of the
 graphics and text state and the object syntax

Text, graphics and images were found line by line with regular expressions, so
operators laid out otherwise, nested graphics states, several content streams,
form XObjects, encodings, inherited attributes and text strings came out wrong.
---
 content/extract/annotations.go    | 196 +++-----
 content/extract/bookmarks.go      | 146 ++----
 content/extract/content_stream.go | 719 +++++++++++++-----------------
 content/extract/dict_helpers.go   | 116 +++--
 content/extract/encoding.go       | 371 ++++++++-------
 content/extract/extract.go        |  49 +-
 content/extract/images.go         | 328 +++-----------
 content/extract/metadata.go       | 102 ++---
 content/extract/pages.go          | 434 +++++-------------
 content/extract/resources.go      | 636 +++++---------------------
 core/syntax/text.go               |  80 ++++
 11 files changed, 1104 insertions(+), 2073 deletions(-)
 create mode 100644 core/syntax/text.go

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index e8d6a65..e680231 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -5,61 +5,42 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // extractAnnotations extracts annotations from a page's /Annots array
-func extractAnnotations(annotsStr string, pdf *parse.PDF, pageNum int, verbose bool) []types.Annotation {
+func extractAnnotations(annots []byte, pdf *parse.PDF, verbose bool) []types.Annotation {
 	var annotations []types.Annotation
-
-	// Parse annotations array (e.g., "[5 0 R 6 0 R]")
-	annotRefs := parseObjectRefArray(annotsStr)
-	if len(annotRefs) == 0 {
-		// Try as single reference
-		if annotRefs = []string{annotsStr}; len(annotsStr) > 0 {
-			// Already set
-		} else {
-			return annotations
-		}
-	}
-
-	for _, annotRef := range annotRefs {
-		annotObjNum, err := parseObjectRef(annotRef)
-		if err != nil {
+	elements, _ := syntax.Array(resolve(pdf, annots))
+	for _, element := range elements {
+		dict := resolve(pdf, element)
+		if dict == nil {
 			if verbose {
-				fmt.Printf("Warning: failed to parse annotation reference %s: %v\n", annotRef, err)
+				fmt.Printf("Warning: failed to get annotation %s\n", element)
 			}
 			continue
 		}
-
-		annot := extractAnnotation(annotObjNum, pdf, pageNum, verbose)
-		if annot != nil {
-			annotations = append(annotations, *annot)
+		annotation := extractAnnotation(dict, pdf)
+		if annotation == nil {
+			continue
 		}
+		if objNum, _, ok := syntax.Ref(element); ok {
+			annotation.ID = fmt.Sprintf("%d", objNum)
+		}
+		annotations = append(annotations, *annotation)
 	}
-
 	return annotations
 }
 
-// extractAnnotation extracts a single annotation object
-func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose bool) *types.Annotation {
-	annotObj, err := pdf.GetObject(annotObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get annotation object %d: %v\n", annotObjNum, err)
-		}
-		return nil
-	}
-
-	annotStr := string(annotObj)
+// extractAnnotation extracts a single annotation
+func extractAnnotation(dict []byte, pdf *parse.PDF) *types.Annotation {
 	annotation := &types.Annotation{
-		ID:         fmt.Sprintf("%d", annotObjNum),
-		PageNumber: pageNum,
 		Properties: make(map[string]interface{}),
 	}
 
 	// Extract Subtype (annotation type)
-	subtype := extractDictValue(annotStr, "/Subtype")
+	subtype := lookupName(pdf, dict, "Subtype")
 	if subtype == "" {
 		// Not a valid annotation
 		return nil
@@ -87,7 +68,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type = types.AnnotationTypeLine
 	case "/Polygon":
 		annotation.Type = types.AnnotationTypePolygon
-	case "/Polyline":
+	case "/PolyLine", "/Polyline":
 		annotation.Type = types.AnnotationTypePolyline
 	case "/Ink":
 		annotation.Type = types.AnnotationTypeInk
@@ -105,114 +86,56 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Rect (bounding rectangle)
-	rect := extractArrayValue(annotStr, "/Rect")
-	if len(rect) >= 4 {
-		annotation.Rect = &types.Rectangle{
-			LowerX: rect[0],
-			LowerY: rect[1],
-			UpperX: rect[2],
-			UpperY: rect[3],
-		}
-	}
+	annotation.Rect = rectangle(pdf, syntax.Get(dict, "Rect"))
 
-	// Extract Contents (annotation text/contents)
-	contents := extractDictValue(annotStr, "/Contents")
-	if contents != "" {
-		// Unescape PDF string
-		annotation.Contents = unescapePDFString(contents)
-	}
-
-	// Extract Title
-	title := extractDictValue(annotStr, "/T")
-	if title != "" {
-		annotation.Title = unescapePDFString(title)
-	}
-
-	// Extract Subject
-	subject := extractDictValue(annotStr, "/Subj")
-	if subject != "" {
-		annotation.Subject = unescapePDFString(subject)
-	}
+	// Extract Contents, Title and Subject
+	annotation.Contents, _ = syntax.TextString(lookup(pdf, dict, "Contents"))
+	annotation.Title, _ = syntax.TextString(lookup(pdf, dict, "T"))
+	annotation.Subject, _ = syntax.TextString(lookup(pdf, dict, "Subj"))
 
 	// Extract Color
-	color := extractArrayValue(annotStr, "/C")
-	if len(color) >= 3 {
-		annotation.Color = &types.Color{
-			Space: types.ColorSpaceRGB,
-			R:     color[0],
-			G:     color[1],
-			B:     color[2],
-		}
-		if len(color) >= 4 {
-			// CMYK
-			annotation.Color.Space = types.ColorSpaceCMYK
-			annotation.Color.C = color[0]
-			annotation.Color.M = color[1]
-			annotation.Color.Y = color[2]
-			annotation.Color.K = color[3]
-		}
+	switch color := numbers(pdf, syntax.Get(dict, "C")); len(color) {
+	case 1:
+		annotation.Color = &types.Color{Space: types.ColorSpaceGray, R: color[0]}
+	case 3:
+		annotation.Color = &types.Color{Space: types.ColorSpaceRGB, R: color[0], G: color[1], B: color[2]}
+	case 4:
+		annotation.Color = &types.Color{Space: types.ColorSpaceCMYK, C: color[0], M: color[1], Y: color[2], K: color[3]}
 	}
 
-	// Extract Border
-	borderWidthStr := extractDictValue(annotStr, "/Border")
-	if borderWidthStr != "" {
-		// Border can be [width] or [width dashArray dashPhase]
-		borderArray := extractArrayValue(annotStr, "/Border")
-		if len(borderArray) > 0 {
-			annotation.Border = &types.Border{
-				Width: borderArray[0],
-			}
-			if len(borderArray) > 2 {
-				annotation.Border.Dash = borderArray[1 : len(borderArray)-1]
+	// Extract Border: [horizontalRadius verticalRadius width [dashes]]
+	if border, ok := syntax.Array(lookup(pdf, dict, "Border")); ok && len(border) >= 3 {
+		if width, ok := number(pdf, border[2]); ok {
+			annotation.Border = &types.Border{Width: width}
+			if len(border) > 3 {
+				annotation.Border.Dash = numbers(pdf, border[3])
 			}
 		}
 	}
 
 	// Link-specific: Extract URI or Destination
 	if annotation.Type == types.AnnotationTypeLink {
-		// Check for URI
-		uriRef := extractDictValue(annotStr, "/URI")
-		if uriRef != "" {
-			// URI might be a string or a reference to a URI object
-			if strings.HasPrefix(uriRef, "(") {
-				// It's a string
-				annotation.URI = unescapePDFString(uriRef[1 : len(uriRef)-1])
-			} else {
-				// It's a reference - get the URI object
-				uriObjNum, err := parseObjectRef(uriRef)
-				if err == nil {
-					uriObj, err := pdf.GetObject(uriObjNum)
-					if err == nil {
-						uriStr := string(uriObj)
-						uriValue := extractDictValue(uriStr, "/URI")
-						if uriValue != "" {
-							annotation.URI = unescapePDFString(uriValue[1 : len(uriValue)-1])
-						}
-					}
-				}
-			}
+		action := lookup(pdf, dict, "A")
+		if uri, ok := syntax.String(lookup(pdf, action, "URI")); ok {
+			annotation.URI = string(uri)
+		} else if uri, ok := syntax.String(lookup(pdf, dict, "URI")); ok {
+			annotation.URI = string(uri)
 		}
 
-		// Check for Destination (named destination or array)
-		dest := extractDictValue(annotStr, "/Dest")
-		if dest != "" {
-			annotation.Destination = dest
+		// Destination (named destination or array), of the link or its action
+		annotation.Destination = destination(pdf, syntax.Get(dict, "Dest"))
+		if annotation.Destination == "" && lookupName(pdf, action, "S") == "/GoTo" {
+			annotation.Destination = destination(pdf, syntax.Get(action, "D"))
 		}
 	}
 
 	// Text annotation-specific
 	if annotation.Type == types.AnnotationTypeText {
 		// Extract Open (is annotation open/popup visible)
-		openStr := extractDictValue(annotStr, "/Open")
-		if openStr == "true" {
-			annotation.Open = true
-		}
+		annotation.Open = string(lookup(pdf, dict, "Open")) == "true"
 
 		// Extract Icon
-		icon := extractDictValue(annotStr, "/Name")
-		if icon != "" {
-			annotation.Icon = icon
-		}
+		annotation.Icon = lookupName(pdf, dict, "Name")
 	}
 
 	// Markup annotations: Extract QuadPoints (for highlight, underline, etc.)
@@ -220,18 +143,27 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type == types.AnnotationTypeUnderline ||
 		annotation.Type == types.AnnotationTypeStrikeout ||
 		annotation.Type == types.AnnotationTypeSquiggly {
-		quadPoints := extractArrayValue(annotStr, "/QuadPoints")
+		// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
+		quadPoints := numbers(pdf, syntax.Get(dict, "QuadPoints"))
 		if len(quadPoints) >= 8 {
-			// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
-			// For simplicity, extract first quad
-			annotation.QuadPoints = []types.Point{
-				{X: quadPoints[0], Y: quadPoints[1]},
-				{X: quadPoints[2], Y: quadPoints[3]},
-				{X: quadPoints[4], Y: quadPoints[5]},
-				{X: quadPoints[6], Y: quadPoints[7]},
+			for i := 0; i+1 < len(quadPoints); i += 2 {
+				annotation.QuadPoints = append(annotation.QuadPoints, types.Point{X: quadPoints[i], Y: quadPoints[i+1]})
 			}
 		}
 	}
 
 	return annotation
 }
+
+// destination returns a destination: the text of a name or string, or an
+// explicit destination's array as it stands.
+func destination(pdf *parse.PDF, value []byte) string {
+	value = resolve(pdf, value)
+	if name, ok := syntax.Name(value); ok {
+		return "/" + name
+	}
+	if text, ok := syntax.TextString(value); ok {
+		return text
+	}
+	return string(value)
+}
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ade6f82..9d585c0 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -1,7 +1,10 @@
 package extract
 
 import (
+	"fmt"
+
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -13,115 +16,62 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 		return []types.Bookmark{}, nil // No bookmarks
 	}
 
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	// Find Outlines reference in catalog
-	outlinesRef := extractDictValue(string(catalogObj), "/Outlines")
-	if outlinesRef == "" {
-		return []types.Bookmark{}, nil
-	}
-
-	outlinesObjNum, err := parseObjectRef(outlinesRef)
-	if err != nil {
+	outlines := lookup(pdf, resolve(pdf, []byte(trailer.RootRef)), "Outlines")
+	if outlines == nil {
 		return []types.Bookmark{}, nil
 	}
 
-	outlinesObj, err := pdf.GetObject(outlinesObjNum)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	// Get First child
-	firstRef := extractDictValue(string(outlinesObj), "/First")
-	if firstRef == "" {
-		return []types.Bookmark{}, nil
-	}
-
-	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, verbose)
-	if err != nil {
-		return []types.Bookmark{}, nil
+	pageNumbers := make(map[int]int)
+	if nodes, err := pageNodes(pdf, false); err == nil {
+		for i, node := range nodes {
+			if _, ok := pageNumbers[node.objNum]; !ok {
+				pageNumbers[node.objNum] = i + 1
+			}
+		}
+	} else if verbose {
+		fmt.Printf("Warning: failed to number pages for bookmarks: %v\n", err)
 	}
 
-	return bookmarks, nil
+	return extractBookmarkItems(pdf, outlines, pageNumbers, make(map[int]bool)), nil
 }
 
-// extractBookmarksRecursive recursively extracts bookmarks from the outline tree
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]types.Bookmark, error) {
-	var bookmarks []types.Bookmark
-
-	itemObjNum, err := parseObjectRef(itemRef)
-	if err != nil {
-		return bookmarks, err
-	}
-
-	itemObj, err := pdf.GetObject(itemObjNum)
-	if err != nil {
-		return bookmarks, err
-	}
-
-	itemStr := string(itemObj)
-
-	// Extract title
-	title := extractDictValue(itemStr, "/Title")
-	if title != "" {
-		title = unescapePDFString(title)
-	}
+// extractBookmarkItems extracts the items below an item of the outline tree, or
+// below its root
+func extractBookmarkItems(pdf *parse.PDF, parent []byte, pageNumbers map[int]int, visited map[int]bool) []types.Bookmark {
+	bookmarks := []types.Bookmark{}
+	for ref := syntax.Get(parent, "First"); ; {
+		objNum, _, ok := syntax.Ref(ref)
+		if !ok || visited[objNum] {
+			return bookmarks
+		}
+		visited[objNum] = true
+		item := resolve(pdf, ref)
+		if _, _, ok := syntax.Entries(item); !ok {
+			return bookmarks
+		}
 
-	// Extract destination or action
-	dest := extractDictValue(itemStr, "/Dest")
-	uri := ""
-	if dest == "" {
-		// Check for action with URI
-		actionRef := extractDictValue(itemStr, "/A")
-		if actionRef != "" {
-			actionObjNum, err := parseObjectRef(actionRef)
-			if err == nil {
-				actionObj, err := pdf.GetObject(actionObjNum)
-				if err == nil {
-					uri = extractDictValue(string(actionObj), "/URI")
-					if uri != "" {
-						uri = unescapePDFString(uri)
-					}
-				}
+		bookmark := types.Bookmark{}
+		bookmark.Title, _ = syntax.TextString(lookup(pdf, item, "Title"))
+
+		// Extract destination or action
+		target := lookup(pdf, item, "Dest")
+		if target == nil {
+			action := lookup(pdf, item, "A")
+			if uri, ok := syntax.String(lookup(pdf, action, "URI")); ok {
+				bookmark.URI = string(uri)
+			} else if lookupName(pdf, action, "S") == "/GoTo" {
+				target = lookup(pdf, action, "D")
 			}
 		}
-	}
-
-	bookmark := types.Bookmark{
-		Title:       title,
-		Destination: dest,
-		URI:         uri,
-		Children:    []types.Bookmark{},
-	}
-
-	// Extract children (First/Next chain)
-	firstRef := extractDictValue(itemStr, "/First")
-	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, verbose)
-		if err == nil {
-			bookmark.Children = children
+		bookmark.Destination = destination(pdf, target)
+		if elements, ok := syntax.Array(target); ok && len(elements) > 0 {
+			if pageObjNum, _, ok := syntax.Ref(elements[0]); ok {
+				bookmark.PageNumber = pageNumbers[pageObjNum]
+			}
 		}
-	}
-
-	bookmarks = append(bookmarks, bookmark)
 
-	// Get next sibling
-	nextRef := extractDictValue(itemStr, "/Next")
-	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, verbose)
-		if err == nil {
-			bookmarks = append(bookmarks, siblings...)
-		}
+		bookmark.Children = extractBookmarkItems(pdf, item, pageNumbers, visited)
+		bookmarks = append(bookmarks, bookmark)
+		ref = syntax.Get(item, "Next")
 	}
-
-	return bookmarks, nil
 }
diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index f3d7817..2ad66ec 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -1,485 +1,374 @@
 package extract
 
 import (
-	"regexp"
-	"strconv"
+	"math"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// parseContentStream parses a PDF content stream and extracts text, graphics, and images
-func parseContentStream(contentStr string, pdf *parse.PDF, pageNum int, verbose bool) ([]types.TextElement, []types.Graphic, []types.ImageRef) {
-	// Call with nil decoders for backward compatibility
-	return parseContentStreamWithDecoders(contentStr, pdf, pageNum, nil, verbose)
-}
+// matrix is a transformation matrix [a b c d e f].
+type matrix [6]float64
 
-// parseContentStreamWithDecoders parses a PDF content stream with font decoding support
-func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum int, fontDecoders map[string]*FontDecoder, verbose bool) ([]types.TextElement, []types.Graphic, []types.ImageRef) {
-	var textElements []types.TextElement
-	var graphics []types.Graphic
-	var imageRefs []types.ImageRef
-
-	// Parse text state
-	textState := &textState{
-		fontName:    "",
-		fontSize:    0,
-		x:           0,
-		y:           0,
-		charSpacing: 0,
-		wordSpacing: 0,
-		textRise:    0,
-		textMatrix:  [6]float64{1, 0, 0, 1, 0, 0},
-		inText:      false,
-	}
+var identity = matrix{1, 0, 0, 1, 0, 0}
 
-	// Parse graphics state
-	graphicsState := &graphicsState{
-		lineWidth:   1,
-		fillColor:   &types.Color{R: 0, G: 0, B: 0}, // Default black
-		strokeColor: &types.Color{R: 0, G: 0, B: 0},
+// mul returns the matrix that applies m first and n then.
+func (m matrix) mul(n matrix) matrix {
+	return matrix{
+		m[0]*n[0] + m[1]*n[2], m[0]*n[1] + m[1]*n[3],
+		m[2]*n[0] + m[3]*n[2], m[2]*n[1] + m[3]*n[3],
+		m[4]*n[0] + m[5]*n[2] + n[4], m[4]*n[1] + m[5]*n[3] + n[5],
 	}
+}
 
-	// Track current transformation matrix (for images)
-	// Default is identity matrix [1 0 0 1 0 0]
-	currentMatrix := [6]float64{1, 0, 0, 1, 0, 0}
-	matrixStack := [][6]float64{} // Stack for q/Q operators
+// apply transforms a point.
+func (m matrix) apply(x, y float64) (float64, float64) {
+	return x*m[0] + y*m[2] + m[4], x*m[1] + y*m[3] + m[5]
+}
 
-	// Split content stream into tokens
-	lines := strings.Split(contentStr, "\n")
-	for _, line := range lines {
-		line = strings.TrimSpace(line)
-		if line == "" {
-			continue
-		}
+// graphicsState is what q saves and Q restores: the transformation matrix, the
+// painting parameters and the text state.
+type graphicsState struct {
+	ctm         matrix
+	lineWidth   float64
+	fillColor   *types.Color
+	strokeColor *types.Color
 
-		// Parse text operators
-		if strings.HasPrefix(line, "BT") {
-			textState.inText = true
-			continue
-		}
-		if strings.HasPrefix(line, "ET") {
-			textState.inText = false
-			continue
-		}
+	fontName    string
+	decoder     *FontDecoder
+	fontSize    float64
+	charSpacing float64
+	wordSpacing float64
+	leading     float64
+	textRise    float64
+}
 
-		// Text positioning
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+Td`).FindStringSubmatch(line); match != nil {
-			if tx, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if ty, err := strconv.ParseFloat(match[2], 64); err == nil {
-					textState.x += tx
-					textState.y += ty
-				}
-			}
-			continue
-		}
+// resourceSet is a resource dictionary with the font decoders made from it.
+type resourceSet struct {
+	dict     []byte
+	decoders map[string]*FontDecoder
+}
 
-		// Text matrix
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+Tm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
-				}
-			}
-			textState.textMatrix = matrix
-			textState.x = matrix[4]
-			textState.y = matrix[5]
-			continue
-		}
+// maxFormDepth and maxForms bound how deep and how often form XObjects are drawn.
+const (
+	maxFormDepth = 24
+	maxForms     = 2000
+)
 
-		// Font and size
-		if match := regexp.MustCompile(`^([/\w]+)\s+([\d\.\-]+)\s+Tf`).FindStringSubmatch(line); match != nil {
-			textState.fontName = match[1]
-			if size, err := strconv.ParseFloat(match[2], 64); err == nil {
-				textState.fontSize = size
-			}
-			// Set font decoder if available
-			if fontDecoders != nil {
-				textState.decoder = fontDecoders[textState.fontName]
-			}
-			continue
-		}
+// interpreter runs the content streams of one page.
+type interpreter struct {
+	pdf      *parse.PDF
+	verbose  bool
+	text     []types.TextElement
+	graphics []types.Graphic
+	images   []types.ImageRef
+	forms    int
+}
 
-		// Character spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tc`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.charSpacing = val
-			}
-			continue
-		}
+// parseContentStream runs a page's content and returns the text, graphics and
+// images it shows.
+func parseContentStream(content []byte, pdf *parse.PDF, resources []byte, verbose bool) ([]types.TextElement, []types.Graphic, []types.ImageRef) {
+	in := &interpreter{pdf: pdf, verbose: verbose}
+	black := func() *types.Color { return &types.Color{R: 0, G: 0, B: 0} }
+	in.run(content, in.resources(resources), graphicsState{
+		ctm:         identity,
+		lineWidth:   1,
+		fillColor:   black(),
+		strokeColor: black(),
+	}, 0)
+	return in.text, in.graphics, in.images
+}
 
-		// Word spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tw`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.wordSpacing = val
-			}
-			continue
-		}
+func (in *interpreter) resources(dict []byte) *resourceSet {
+	return &resourceSet{dict: dict, decoders: extractFontDecoders(dict, in.pdf, in.verbose)}
+}
 
-		// Text rise
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Ts`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.textRise = val
-			}
-			continue
-		}
+// run interprets one content stream with the state it starts in.
+func (in *interpreter) run(content []byte, res *resourceSet, gs graphicsState, depth int) {
+	var stack []graphicsState
+	lineMatrix := identity
+	var operands [][]byte
 
-		// Show text (Tj operator) - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Literal string
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Hex string
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
+	// num returns the operand at position i of the last n.
+	num := func(n, i int) float64 {
+		f, _ := parseNumber(string(operands[len(operands)-n+i]))
+		return f
+	}
+	nums := func(n int) matrix {
+		var m matrix
+		for i := 0; i < n; i++ {
+			m[i] = num(n, i)
 		}
+		return m
+	}
+	move := func(tx, ty float64) {
+		lineMatrix = matrix{1, 0, 0, 1, tx, ty}.mul(lineMatrix)
+	}
+	show := func(text string) {
+		in.text = append(in.text, createTextElement(text, lineMatrix, &gs))
+	}
+	last := func() []byte { return operands[len(operands)-1] }
 
-		// Show text next line (') - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+'`).FindStringSubmatch(line); match != nil {
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			// Move to next line (simplified - would need leading)
-			textState.y -= textState.fontSize * 1.2
-			continue
+	pos := 0
+	for {
+		start, end := syntax.Token(content, pos)
+		if start == end {
+			return
 		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+'`).FindStringSubmatch(line); match != nil {
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			textState.y -= textState.fontSize * 1.2
-			continue
-		}
-
-		// Show text array (TJ operator)
-		if match := regexp.MustCompile(`^\[([^\]]+)\]\s+TJ`).FindStringSubmatch(line); match != nil {
-			text := parseTextArrayWithDecoder(match[1], textState.decoder)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
+		if isOperand(content[start]) {
+			if c := content[start]; c == '[' || c == '<' {
+				end = syntax.ValueEnd(content, start)
+			}
+			operands = append(operands, content[start:end])
+			pos = end
 			continue
 		}
-
-		// Graphics operations
-		// Rectangle (re operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+re`).FindStringSubmatch(line); match != nil {
-			if x, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if y, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if w, err := strconv.ParseFloat(match[3], 64); err == nil {
-						if h, err := strconv.ParseFloat(match[4], 64); err == nil {
-							graphic := types.Graphic{
-								Type:        types.GraphicTypeRectangle,
-								FillColor:   graphicsState.fillColor,
-								StrokeColor: graphicsState.strokeColor,
-								LineWidth:   graphicsState.lineWidth,
-								BoundingBox: &types.Rectangle{
-									LowerX: x,
-									LowerY: y,
-									UpperX: x + w,
-									UpperY: y + h,
-								},
-							}
-							graphics = append(graphics, graphic)
-						}
-					}
-				}
-			}
+		pos = end
+		operator := string(content[start:end])
+		if operator == "true" || operator == "false" || operator == "null" {
+			operands = append(operands, content[start:end])
 			continue
 		}
-
-		// Move to (m operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+m`).FindStringSubmatch(line); match != nil {
-			// Start of a path - we'll track this for line/path extraction
-			// For now, just note it
+		if len(operands) < operandCount[operator] {
+			operands = operands[:0]
 			continue
 		}
 
-		// Line to (l operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+l`).FindStringSubmatch(line); match != nil {
-			// Simplified - would need to track path start
-			// For now, just note that a line was drawn
-			graphic := types.Graphic{
-				Type:        types.GraphicTypeLine,
-				StrokeColor: graphicsState.strokeColor,
-				LineWidth:   graphicsState.lineWidth,
+		switch operator {
+		// Graphics state
+		case "q":
+			stack = append(stack, gs)
+		case "Q":
+			if len(stack) > 0 {
+				gs = stack[len(stack)-1]
+				stack = stack[:len(stack)-1]
 			}
-			graphics = append(graphics, graphic)
-			continue
-		}
+		case "cm":
+			gs.ctm = nums(6).mul(gs.ctm)
+		case "w":
+			gs.lineWidth = num(1, 0)
+		case "rg":
+			gs.fillColor = rgb(nums(3))
+		case "RG":
+			gs.strokeColor = rgb(nums(3))
+		case "g":
+			gs.fillColor = &types.Color{Space: types.ColorSpaceGray, R: num(1, 0)}
+		case "G":
+			gs.strokeColor = &types.Color{Space: types.ColorSpaceGray, R: num(1, 0)}
+		case "k":
+			gs.fillColor = cmyk(nums(4))
+		case "K":
+			gs.strokeColor = cmyk(nums(4))
+
+		// Text state
+		case "Tf":
+			name, _ := syntax.Name(operands[len(operands)-2])
+			gs.fontName = "/" + name
+			gs.fontSize = num(1, 0)
+			gs.decoder = res.decoders[gs.fontName]
+		case "Tc":
+			gs.charSpacing = num(1, 0)
+		case "Tw":
+			gs.wordSpacing = num(1, 0)
+		case "TL":
+			gs.leading = num(1, 0)
+		case "Ts":
+			gs.textRise = num(1, 0)
 
-		// Stroke (S operator)
-		if strings.HasPrefix(line, "S") {
-			// Stroke the current path
-			continue
+		// Text positioning
+		case "BT":
+			lineMatrix = identity
+		case "Td":
+			move(num(2, 0), num(2, 1))
+		case "TD":
+			gs.leading = -num(2, 1)
+			move(num(2, 0), num(2, 1))
+		case "Tm":
+			lineMatrix = nums(6)
+		case "T*":
+			move(0, -gs.leading)
+
+		// Text showing
+		case "Tj":
+			show(decodeTextOperand(last(), gs.decoder))
+		case "TJ":
+			show(decodeTextArray(last(), gs.decoder))
+		case "'":
+			move(0, -gs.leading)
+			show(decodeTextOperand(last(), gs.decoder))
+		case "\"":
+			gs.wordSpacing = num(3, 0)
+			gs.charSpacing = num(3, 1)
+			move(0, -gs.leading)
+			show(decodeTextOperand(last(), gs.decoder))
+
+		// Paths
+		case "re":
+			in.graphics = append(in.graphics, types.Graphic{
+				Type:        types.GraphicTypeRectangle,
+				FillColor:   gs.fillColor,
+				StrokeColor: gs.strokeColor,
+				LineWidth:   gs.lineWidth,
+				BoundingBox: boundingBox(gs.ctm, num(4, 0), num(4, 1), num(4, 2), num(4, 3)),
+			})
+		case "l":
+			in.graphics = append(in.graphics, types.Graphic{
+				Type:        types.GraphicTypeLine,
+				StrokeColor: gs.strokeColor,
+				LineWidth:   gs.lineWidth,
+			})
+
+		// XObjects and inline images
+		case "Do":
+			name, _ := syntax.Name(last())
+			in.draw(name, res, gs, depth)
+		case "BI":
+			pos = inlineImageEnd(content, pos)
 		}
+		operands = operands[:0]
+	}
+}
 
-		// Fill (f operator)
-		if strings.HasPrefix(line, "f") {
-			// Fill the current path
-			continue
-		}
+// operandCount is how many operands an operator needs at least.
+var operandCount = map[string]int{
+	"cm": 6, "w": 1, "rg": 3, "RG": 3, "g": 1, "G": 1, "k": 4, "K": 4,
+	"Tf": 2, "Tc": 1, "Tw": 1, "TL": 1, "Ts": 1, "Td": 2, "TD": 2, "Tm": 6,
+	"Tj": 1, "TJ": 1, "'": 1, "\"": 3, "re": 4, "l": 2, "Do": 1,
+}
 
-		// Save graphics state (q operator) - push current matrix to stack
-		if strings.TrimSpace(line) == "q" {
-			matrixStack = append(matrixStack, currentMatrix)
-			continue
-		}
+// isOperand reports whether a token that starts with c is an operand.
+func isOperand(c byte) bool {
+	return (c >= '0' && c <= '9') || strings.IndexByte("+-./([<", c) >= 0
+}
 
-		// Restore graphics state (Q operator) - pop matrix from stack
-		if strings.TrimSpace(line) == "Q" {
-			if len(matrixStack) > 0 {
-				currentMatrix = matrixStack[len(matrixStack)-1]
-				matrixStack = matrixStack[:len(matrixStack)-1]
-			}
-			continue
+// draw shows an XObject: an image is reported with its placement, a form's
+// content is run.
+func (in *interpreter) draw(name string, res *resourceSet, gs graphicsState, depth int) {
+	if xobject := in.lookup(res.dict, "XObject", name); xobject != nil && lookupName(in.pdf, xobject, "Subtype") == "/Form" {
+		if depth >= maxFormDepth || in.forms >= maxForms {
+			return
 		}
-
-		// Set transformation matrix (cm operator)
-		// Format: a b c d e f cm
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+cm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
-				}
-			}
-			// Multiply with current matrix (concatenate transformations)
-			// For simplicity, we'll just replace (assuming q/Q handles stacking)
-			// In full implementation, should multiply: newMatrix = currentMatrix * matrix
-			// For now, replace since DrawImageAt uses q/cm/Do/Q pattern
-			currentMatrix = matrix
-			continue
+		in.forms++
+		content, err := streamData(in.pdf, xobject)
+		if err != nil {
+			return
 		}
-
-		// Set line width (w operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+w`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				graphicsState.lineWidth = val
-			}
-			continue
+		if m := numbers(in.pdf, syntax.Get(xobject, "Matrix")); len(m) == 6 {
+			gs.ctm = matrix{m[0], m[1], m[2], m[3], m[4], m[5]}.mul(gs.ctm)
 		}
-
-		// Set fill color RGB (rg operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+rg`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.fillColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
-			}
-			continue
+		if own := lookup(in.pdf, xobject, "Resources"); own != nil {
+			res = in.resources(own)
 		}
+		in.run(content, res, gs, depth+1)
+		return
+	}
 
-		// Set stroke color RGB (RG operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+RG`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.strokeColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
-			}
-			continue
-		}
+	m := gs.ctm
+	in.images = append(in.images, types.ImageRef{
+		ImageID:   "/" + name,
+		X:         m[4],
+		Y:         m[5],
+		Width:     math.Hypot(m[0], m[1]),
+		Height:    math.Hypot(m[2], m[3]),
+		Transform: m,
+	})
+}
 
-		// Draw image (Do operator)
-		// Extract position and size from current transformation matrix
-		if match := regexp.MustCompile(`^([/\w]+)\s+Do`).FindStringSubmatch(line); match != nil {
-			// Transformation matrix [a b c d e f] where:
-			// - a, d are scale factors (width, height)
-			// - e, f are translation (x, y position)
-			// For DrawImageAt pattern: [width 0 0 height x y]
-			x := currentMatrix[4]      // e (translation X)
-			y := currentMatrix[5]      // f (translation Y)
-			width := currentMatrix[0]  // a (scale X)
-			height := currentMatrix[3] // d (scale Y)
-
-			// Handle negative scales (flipped images)
-			if width < 0 {
-				width = -width
-			}
-			if height < 0 {
-				height = -height
-			}
+// lookup returns a named resource.
+func (in *interpreter) lookup(resources []byte, category, name string) []byte {
+	if in.pdf == nil {
+		return nil
+	}
+	return lookup(in.pdf, lookup(in.pdf, resources, category), name)
+}
 
-			imageRef := types.ImageRef{
-				ImageID:   match[1],
-				X:         x,
-				Y:         y,
-				Width:     width,
-				Height:    height,
-				Transform: currentMatrix,
-			}
-			imageRefs = append(imageRefs, imageRef)
-			continue
+// inlineImageEnd returns the position after the inline image whose dictionary
+// starts at pos: its EI stands alone after white space.
+func inlineImageEnd(content []byte, pos int) int {
+	for {
+		start, end := syntax.Token(content, pos)
+		if start == end {
+			return end
+		}
+		pos = end
+		if string(content[start:end]) == "ID" {
+			break
 		}
 	}
-
-	return textElements, graphics, imageRefs
+	for i := pos + 1; i+1 < len(content); i++ {
+		if content[i] == 'E' && content[i+1] == 'I' && syntax.IsSpace(content[i-1]) &&
+			(i+2 == len(content) || syntax.IsSpace(content[i+2])) {
+			return i + 2
+		}
+	}
+	return len(content)
 }
 
-// textState tracks the current text rendering state
-type textState struct {
-	fontName    string
-	fontSize    float64
-	x           float64
-	y           float64
-	charSpacing float64
-	wordSpacing float64
-	textRise    float64
-	textMatrix  [6]float64
-	inText      bool
-	decoder     *FontDecoder // Current font decoder for text extraction
+func rgb(m matrix) *types.Color { return &types.Color{R: m[0], G: m[1], B: m[2]} }
+
+func cmyk(m matrix) *types.Color {
+	return &types.Color{Space: types.ColorSpaceCMYK, C: m[0], M: m[1], Y: m[2], K: m[3]}
 }
 
-// graphicsState tracks the current graphics rendering state
-type graphicsState struct {
-	lineWidth   float64
-	fillColor   *types.Color
-	strokeColor *types.Color
+// boundingBox returns the box around a transformed rectangle.
+func boundingBox(m matrix, x, y, w, h float64) *types.Rectangle {
+	box := &types.Rectangle{LowerX: math.Inf(1), LowerY: math.Inf(1), UpperX: math.Inf(-1), UpperY: math.Inf(-1)}
+	for _, corner := range [4][2]float64{{x, y}, {x + w, y}, {x, y + h}, {x + w, y + h}} {
+		px, py := m.apply(corner[0], corner[1])
+		box.LowerX, box.UpperX = math.Min(box.LowerX, px), math.Max(box.UpperX, px)
+		box.LowerY, box.UpperY = math.Min(box.LowerY, py), math.Max(box.UpperY, py)
+	}
+	return box
 }
 
-// createTextElement creates a TextElement from text and current text state
-func createTextElement(text string, state *textState) types.TextElement {
+// createTextElement creates a TextElement from text shown on the line that
+// starts at the origin of lineMatrix.
+func createTextElement(text string, lineMatrix matrix, gs *graphicsState) types.TextElement {
 	// Calculate approximate width (simplified - would need font metrics)
-	width := float64(len(text)) * state.fontSize * 0.6
+	width := float64(len(text)) * gs.fontSize * 0.6
+	x, y := lineMatrix.mul(gs.ctm).apply(0, 0)
 
 	return types.TextElement{
 		Text:        text,
-		X:           state.x,
-		Y:           state.y,
+		X:           x,
+		Y:           y,
 		Width:       width,
-		Height:      state.fontSize,
-		FontName:    state.fontName,
-		FontSize:    state.fontSize,
-		CharSpacing: state.charSpacing,
-		WordSpacing: state.wordSpacing,
-		TextRise:    state.textRise,
-		TextMatrix:  state.textMatrix,
+		Height:      gs.fontSize,
+		FontName:    gs.fontName,
+		FontSize:    gs.fontSize,
+		CharSpacing: gs.charSpacing,
+		WordSpacing: gs.wordSpacing,
+		TextRise:    gs.textRise,
+		TextMatrix:  lineMatrix,
 	}
 }
 
-// parseTextArray parses a TJ text array and concatenates strings
-// Format: [ (text1) -50 (text2) ] where numbers are adjustments
-func parseTextArray(arrStr string) string {
-	return parseTextArrayWithDecoder(arrStr, nil)
-}
-
-// parseTextArrayWithDecoder parses a TJ text array with font decoding
-func parseTextArrayWithDecoder(arrStr string, decoder *FontDecoder) string {
+// decodeTextArray concatenates the strings of a TJ array; the numbers between
+// them are adjustments.
+func decodeTextArray(array []byte, decoder *FontDecoder) string {
+	elements, _ := syntax.Array(array)
 	var result strings.Builder
-
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Parse elements - strings in parentheses, hex strings, or numbers
-	// Pattern: (text) or <hex> or number
-	// We need to handle both literal and hex strings
-	i := 0
-	for i < len(arrStr) {
-		// Skip whitespace
-		for i < len(arrStr) && (arrStr[i] == ' ' || arrStr[i] == '\t' || arrStr[i] == '\n' || arrStr[i] == '\r') {
-			i++
-		}
-		if i >= len(arrStr) {
-			break
-		}
-
-		if arrStr[i] == '(' {
-			// Literal string - find matching closing paren (handle escapes)
-			start := i + 1
-			depth := 1
-			i++
-			for i < len(arrStr) && depth > 0 {
-				if arrStr[i] == '\\' && i+1 < len(arrStr) {
-					i += 2 // Skip escaped character
-					continue
-				}
-				if arrStr[i] == '(' {
-					depth++
-				} else if arrStr[i] == ')' {
-					depth--
-				}
-				i++
-			}
-			if depth == 0 {
-				rawText := unescapePDFString(arrStr[start : i-1])
-				text := decodeTextWithFont(rawText, decoder, false)
-				result.WriteString(text)
-			}
-		} else if arrStr[i] == '<' {
-			// Hex string - find closing >
-			start := i + 1
-			i++
-			for i < len(arrStr) && arrStr[i] != '>' {
-				i++
-			}
-			if i < len(arrStr) {
-				hexStr := arrStr[start:i]
-				text := decodeTextWithFont(hexStr, decoder, true)
-				result.WriteString(text)
-				i++ // Skip >
-			}
-		} else if arrStr[i] == '-' || arrStr[i] == '.' || (arrStr[i] >= '0' && arrStr[i] <= '9') {
-			// Number (adjustment) - skip it
-			for i < len(arrStr) && (arrStr[i] == '-' || arrStr[i] == '.' || (arrStr[i] >= '0' && arrStr[i] <= '9')) {
-				i++
-			}
-		} else {
-			i++ // Skip unknown character
-		}
+	for _, element := range elements {
+		result.WriteString(decodeTextOperand(element, decoder))
 	}
-
 	return result.String()
 }
 
-// decodeTextWithFont decodes raw text bytes using the font's encoding
-func decodeTextWithFont(rawText string, decoder *FontDecoder, isHex bool) string {
-	if decoder == nil {
-		// No decoder available - return as-is (original behavior)
-		if isHex {
-			// Decode hex to bytes and return as Latin-1
-			return decodeHexToLatin1(rawText)
-		}
-		return rawText
+// decodeTextOperand decodes a shown string using the font's encoding, or as
+// Latin-1 when the font is not known.
+func decodeTextOperand(operand []byte, decoder *FontDecoder) string {
+	s, ok := syntax.String(operand)
+	if !ok {
+		return ""
 	}
-
-	if isHex {
-		return decoder.DecodeHex(rawText)
+	if decoder != nil {
+		return decoder.Decode(s)
 	}
-	return decoder.Decode([]byte(rawText))
-}
-
-// decodeHexToLatin1 decodes a hex string to Latin-1 text (fallback when no font decoder)
-func decodeHexToLatin1(hexStr string) string {
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
-
-	// Pad if odd length
-	if len(hexStr)%2 != 0 {
-		hexStr += "0"
-	}
-
-	var result strings.Builder
-	for i := 0; i < len(hexStr); i += 2 {
-		if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-			result.WriteRune(rune(val))
-		}
+	runes := make([]rune, len(s))
+	for i, b := range s {
+		runes[i] = rune(b)
 	}
-	return result.String()
+	return string(runes)
 }
-
-// unescapePDFString is defined in metadata.go
diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index 2467c6e..201730a 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -1,48 +1,96 @@
 package extract
 
-import "strings"
-
-// extractInlineDict extracts an inline dictionary value from a PDF dictionary string
-// For example, from "/Resources<<...>>", extracts the "<<...>>" part
-func extractInlineDict(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
+import (
+	"strconv"
+	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
+)
+
+// resolve follows references until it comes to a value. It returns nil when
+// there is none.
+func resolve(pdf *parse.PDF, value []byte) []byte {
+	for hops := 0; hops < 32; hops++ {
+		num, _, ok := syntax.Ref(value)
+		if !ok {
+			if strings.TrimSpace(string(value)) == "null" {
+				return nil
+			}
+			return value
+		}
+		obj, err := pdf.GetObject(num)
+		if err != nil {
+			return nil
+		}
+		value = syntax.Body(obj)
 	}
+	return nil
+}
+
+// lookup returns the value of key in a dictionary, following references, or nil.
+func lookup(pdf *parse.PDF, dict []byte, key string) []byte {
+	return resolve(pdf, syntax.Get(dict, key))
+}
 
-	// Find the dictionary after the key
-	dictStart := keyIdx + len(key)
-	for dictStart < len(dictStr) && (dictStr[dictStart] == ' ' || dictStr[dictStart] == '\n' || dictStr[dictStart] == '\r') {
-		dictStart++
+// lookupName returns the name that key has as its value, with its slash, or "".
+func lookupName(pdf *parse.PDF, dict []byte, key string) string {
+	if name, ok := syntax.Name(lookup(pdf, dict, key)); ok {
+		return "/" + name
 	}
+	return ""
+}
 
-	// Check if it's a dictionary <<...>>
-	if dictStart+1 >= len(dictStr) || dictStr[dictStart] != '<' || dictStr[dictStart+1] != '<' {
-		return ""
+// number reads a number, following references.
+func number(pdf *parse.PDF, value []byte) (float64, bool) {
+	return parseNumber(string(resolve(pdf, value)))
+}
+
+// parseNumber reads the text of a number.
+func parseNumber(text string) (float64, bool) {
+	text = strings.TrimSpace(text)
+	for _, c := range text {
+		if (c < '0' || c > '9') && c != '+' && c != '-' && c != '.' {
+			return 0, false
+		}
 	}
+	f, err := strconv.ParseFloat(text, 64)
+	return f, err == nil
+}
 
-	// Find matching >>
-	dictEnd := dictStart + 2
-	depth := 1
-	for dictEnd+1 < len(dictStr) && depth > 0 {
-		if dictStr[dictEnd] == '>' && dictStr[dictEnd+1] == '>' {
-			depth--
-			if depth == 0 {
-				// Return the dictionary content (without << >>)
-				return dictStr[dictStart+2 : dictEnd]
-			}
-			dictEnd += 2
-		} else if dictEnd+1 < len(dictStr) && dictStr[dictEnd] == '<' && dictStr[dictEnd+1] == '<' {
-			depth++
-			dictEnd += 2
-		} else {
-			dictEnd++
+// numbers reads an array of numbers, following references.
+func numbers(pdf *parse.PDF, value []byte) []float64 {
+	elements, ok := syntax.Array(resolve(pdf, value))
+	if !ok {
+		return nil
+	}
+	values := make([]float64, 0, len(elements))
+	for _, element := range elements {
+		f, ok := number(pdf, element)
+		if !ok {
+			return nil
 		}
+		values = append(values, f)
 	}
+	return values
+}
 
-	if depth == 0 {
-		return dictStr[dictStart+2 : dictEnd]
+// streamData returns a stream's decoded data.
+func streamData(pdf *parse.PDF, obj []byte) ([]byte, error) {
+	dict, data, ok := syntax.Stream(obj)
+	if !ok {
+		return nil, nil
 	}
+	return decodeStream(pdf, dict, data)
+}
 
-	return ""
+// decodeStream undoes the filters of a stream's dictionary.
+func decodeStream(pdf *parse.PDF, dict, data []byte) ([]byte, error) {
+	return parse.DecodeStream(dict, data, func(num int) []byte {
+		obj, err := pdf.GetObject(num)
+		if err != nil {
+			return nil
+		}
+		return obj
+	})
 }
diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index eebbb54..6eec92a 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -1,15 +1,18 @@
 package extract
 
 import (
-	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 )
 
 // FontDecoder decodes character codes to Unicode for a specific font
 type FontDecoder struct {
 	// ToUnicode mapping from character codes to Unicode (highest priority)
-	toUnicode map[int]rune
+	toUnicode map[int]string
 
 	// Base encoding (WinAnsiEncoding, MacRomanEncoding, etc.)
 	baseEncoding map[int]rune
@@ -19,12 +22,25 @@ type FontDecoder struct {
 
 	// Font name for debugging
 	fontName string
+
+	// A simple font has one-byte codes, a composite font longer ones: those of
+	// its code space ranges, or two bytes. When neither is known the ToUnicode
+	// codes decide.
+	simple    bool
+	composite bool
+	codeSpace []codeRange
+}
+
+// codeRange is a range of character codes of a number of bytes.
+type codeRange struct {
+	length    int
+	low, high []byte
 }
 
 // NewFontDecoder creates a new font decoder
 func NewFontDecoder(fontName string) *FontDecoder {
 	return &FontDecoder{
-		toUnicode:    make(map[int]rune),
+		toUnicode:    make(map[int]string),
 		baseEncoding: make(map[int]rune),
 		differences:  make(map[int]rune),
 		fontName:     fontName,
@@ -58,79 +74,71 @@ func (fd *FontDecoder) SetDifferences(code int, glyphName string) {
 
 // SetToUnicode adds a ToUnicode mapping
 func (fd *FontDecoder) SetToUnicode(code int, unicode rune) {
-	fd.toUnicode[code] = unicode
+	fd.toUnicode[code] = string(unicode)
 }
 
 // Decode decodes a byte slice to a Unicode string using the font's encoding
 func (fd *FontDecoder) Decode(data []byte) string {
 	var result strings.Builder
-
-	for _, b := range data {
-		code := int(b)
-		var char rune
-
-		// Priority: ToUnicode > Differences > BaseEncoding > Identity
-		if unicode, ok := fd.toUnicode[code]; ok {
-			char = unicode
-		} else if unicode, ok := fd.differences[code]; ok {
-			char = unicode
-		} else if unicode, ok := fd.baseEncoding[code]; ok {
-			char = unicode
-		} else {
-			// Default: treat as Latin-1 (ISO-8859-1)
-			char = rune(code)
+	for len(data) > 0 {
+		n := fd.codeLength(data)
+		code := 0
+		for _, b := range data[:n] {
+			code = code<<8 | int(b)
 		}
-
-		result.WriteRune(char)
+		result.WriteString(fd.lookupCode(code))
+		data = data[n:]
 	}
-
 	return result.String()
 }
 
-// DecodeHex decodes a hex string to Unicode using the font's encoding
-func (fd *FontDecoder) DecodeHex(hexStr string) string {
-	// Remove < and > if present
-	hexStr = strings.TrimPrefix(hexStr, "<")
-	hexStr = strings.TrimSuffix(hexStr, ">")
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
-
-	// Pad with 0 if odd length
-	if len(hexStr)%2 != 0 {
-		hexStr += "0"
-	}
-
-	var result strings.Builder
-
-	// Check if this is a 2-byte encoding (common for CID fonts)
-	// Heuristic: if we have ToUnicode entries for codes > 255, use 2-byte decoding
-	is2Byte := fd.has2ByteMapping()
-
-	if is2Byte && len(hexStr) >= 4 {
-		// 2-byte character codes
-		for i := 0; i < len(hexStr); i += 4 {
-			if i+4 > len(hexStr) {
-				// Remaining single byte
-				if val, err := strconv.ParseInt(hexStr[i:], 16, 32); err == nil {
-					result.WriteRune(fd.lookupCode(int(val)))
-				}
-				break
-			}
-			if val, err := strconv.ParseInt(hexStr[i:i+4], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
+// codeLength returns how many bytes the code at the start of data has.
+func (fd *FontDecoder) codeLength(data []byte) int {
+	n := 1
+	switch {
+	case fd.simple:
+		return 1
+	case len(fd.codeSpace) > 0:
+		n = fd.codeSpace[0].length
+		for _, r := range fd.codeSpace {
+			if r.length < n {
+				n = r.length
 			}
 		}
-	} else {
-		// 1-byte character codes
-		for i := 0; i < len(hexStr); i += 2 {
-			if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
+		for _, r := range fd.codeSpace {
+			if r.contains(data) {
+				n = r.length
+				break
 			}
 		}
+	case fd.composite || fd.has2ByteMapping():
+		n = 2
+	}
+	if n > len(data) {
+		n = len(data)
 	}
+	return n
+}
 
-	return result.String()
+// contains reports whether data starts with a code of the range.
+func (r codeRange) contains(data []byte) bool {
+	if len(data) < r.length {
+		return false
+	}
+	for i := 0; i < r.length; i++ {
+		if data[i] < r.low[i] || data[i] > r.high[i] {
+			return false
+		}
+	}
+	return true
+}
+
+// DecodeHex decodes a hex string to Unicode using the font's encoding
+func (fd *FontDecoder) DecodeHex(hexStr string) string {
+	// Remove < and > if present
+	hexStr = strings.TrimSuffix(strings.TrimPrefix(hexStr, "<"), ">")
+	data, _ := syntax.String([]byte("<" + hexStr + " >"))
+	return fd.Decode(data)
 }
 
 // has2ByteMapping checks if the font has 2-byte ToUnicode mappings
@@ -144,167 +152,158 @@ func (fd *FontDecoder) has2ByteMapping() bool {
 }
 
 // lookupCode looks up a character code in all encoding tables
-func (fd *FontDecoder) lookupCode(code int) rune {
+func (fd *FontDecoder) lookupCode(code int) string {
+	// Priority: ToUnicode > Differences > BaseEncoding > Identity
 	if unicode, ok := fd.toUnicode[code]; ok {
 		return unicode
 	}
 	if unicode, ok := fd.differences[code]; ok {
-		return unicode
+		return string(unicode)
 	}
-	if code < 256 {
-		if unicode, ok := fd.baseEncoding[code]; ok {
-			return unicode
-		}
+	if unicode, ok := fd.baseEncoding[code]; ok {
+		return string(unicode)
 	}
-	// Default: treat as Unicode code point (for Identity-H)
+	// Default: treat as Unicode code point (Latin-1, or Identity-H)
 	if code < 0x10000 {
-		return rune(code)
+		return string(rune(code))
 	}
-	return '?'
+	return "?"
 }
 
 // ParseToUnicodeCMap parses a ToUnicode CMap stream and populates the decoder
 func (fd *FontDecoder) ParseToUnicodeCMap(cmapData string) {
-	// Parse beginbfchar...endbfchar sections (single character mappings)
-	// Format: <srcCode> <dstUnicode>
-	bfcharPattern := regexp.MustCompile(`beginbfchar\s*([\s\S]*?)\s*endbfchar`)
-	bfcharMatches := bfcharPattern.FindAllStringSubmatch(cmapData, -1)
-	for _, match := range bfcharMatches {
-		fd.parseBfcharBlock(match[1])
-	}
-
-	// Parse beginbfrange...endbfrange sections (range mappings)
-	// Format: <srcCodeLo> <srcCodeHi> <dstUnicode> or <srcCodeLo> <srcCodeHi> [<dst1> <dst2> ...]
-	bfrangePattern := regexp.MustCompile(`beginbfrange\s*([\s\S]*?)\s*endbfrange`)
-	bfrangeMatches := bfrangePattern.FindAllStringSubmatch(cmapData, -1)
-	for _, match := range bfrangeMatches {
-		fd.parseBfrangeBlock(match[1])
-	}
+	cmapSections(cmapData, func(section string, values [][]byte) {
+		switch section {
+		case "bfchar": // <srcCode> <dstUnicode>
+			for ; len(values) >= 2; values = values[2:] {
+				if code, ok := cmapCode(values[0]); ok {
+					if dst, ok := syntax.String(values[1]); ok {
+						fd.toUnicode[code] = utf16String(dst)
+					}
+				}
+			}
+		case "bfrange": // <srcLo> <srcHi> <dstStart> or <srcLo> <srcHi> [<dst1> <dst2> ...]
+			for ; len(values) >= 3; values = values[3:] {
+				fd.addRange(values[0], values[1], values[2])
+			}
+		}
+	})
 }
 
-// parseBfcharBlock parses a bfchar block
-func (fd *FontDecoder) parseBfcharBlock(block string) {
-	// Match pairs of hex values: <srcCode> <dstUnicode>
-	linePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	matches := linePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range matches {
-		srcCode, err := strconv.ParseInt(match[1], 16, 32)
-		if err != nil {
-			continue
-		}
-		// Destination can be multi-byte Unicode
-		dstHex := match[2]
-		unicodeRunes := hexToUnicodeRunes(dstHex)
-		if len(unicodeRunes) == 1 {
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
-		} else if len(unicodeRunes) > 1 {
-			// For ligatures/sequences, store the first rune
-			// TODO: Handle multi-rune mappings properly
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
+// addRange maps a range of codes to consecutive characters or to a list.
+func (fd *FontDecoder) addRange(low, high, dst []byte) {
+	lo, ok1 := cmapCode(low)
+	hi, ok2 := cmapCode(high)
+	if !ok1 || !ok2 || hi-lo > 0xFFFF {
+		return
+	}
+	if list, ok := syntax.Array(dst); ok {
+		for i, element := range list {
+			if s, ok := syntax.String(element); ok && lo+i <= hi {
+				fd.toUnicode[lo+i] = utf16String(s)
+			}
 		}
+		return
+	}
+	start, ok := syntax.String(dst)
+	if !ok || len(start) == 0 {
+		return
+	}
+	// the last character counts up
+	runes := []rune(utf16String(start))
+	for code := lo; code <= hi; code++ {
+		fd.toUnicode[code] = string(runes)
+		runes[len(runes)-1]++
 	}
 }
 
-// parseBfrangeBlock parses a bfrange block
-func (fd *FontDecoder) parseBfrangeBlock(block string) {
-	// Match range definitions: <srcLo> <srcHi> <dstStart> or <srcLo> <srcHi> [array]
-	// Simple range: <0020> <007E> <0020>
-	simpleRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	simpleMatches := simpleRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range simpleMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		dstStart, err3 := strconv.ParseInt(match[3], 16, 32)
-		if err1 != nil || err2 != nil || err3 != nil {
-			continue
+// parseCodeSpace reads the code space ranges of a font's encoding CMap.
+func (fd *FontDecoder) parseCodeSpace(cmapData string) {
+	cmapSections(cmapData, func(section string, values [][]byte) {
+		if section != "codespacerange" {
+			return
 		}
-		for i := srcLo; i <= srcHi; i++ {
-			fd.toUnicode[int(i)] = rune(dstStart + (i - srcLo))
+		for ; len(values) >= 2; values = values[2:] {
+			low, ok1 := syntax.String(values[0])
+			high, ok2 := syntax.String(values[1])
+			if ok1 && ok2 && len(low) > 0 && len(low) == len(high) {
+				fd.codeSpace = append(fd.codeSpace, codeRange{length: len(low), low: low, high: high})
+			}
 		}
-	}
+	})
+}
 
-	// Array range: <srcLo> <srcHi> [<dst1> <dst2> ...]
-	arrayRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*\[([^\]]+)\]`)
-	arrayMatches := arrayRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range arrayMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		if err1 != nil || err2 != nil {
-			continue
+// cmapSections calls f with the values in each begin...end section of a CMap.
+func cmapSections(cmapData string, f func(section string, values [][]byte)) {
+	b := []byte(cmapData)
+	section := ""
+	var values [][]byte
+	for pos := 0; ; {
+		start, end := syntax.Token(b, pos)
+		if start == end {
+			return
 		}
-		// Parse array elements
-		arrayHexPattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>`)
-		arrayElements := arrayHexPattern.FindAllStringSubmatch(match[3], -1)
-		for i, elem := range arrayElements {
-			code := int(srcLo) + i
-			if code > int(srcHi) {
-				break
-			}
-			unicodeRunes := hexToUnicodeRunes(elem[1])
-			if len(unicodeRunes) > 0 {
-				fd.toUnicode[code] = unicodeRunes[0]
-			}
+		if c := b[start]; c == '<' || c == '[' {
+			end = syntax.ValueEnd(b, start)
+			values = append(values, b[start:end])
+		} else if word := string(b[start:end]); strings.HasPrefix(word, "begin") {
+			section, values = word[len("begin"):], nil
+		} else if section != "" && word == "end"+section {
+			f(section, values)
+			section, values = "", nil
 		}
+		pos = end
 	}
 }
 
-// hexToUnicodeRunes converts a hex string to Unicode runes
-// Each pair of hex digits represents a byte in UTF-16BE
-func hexToUnicodeRunes(hex string) []rune {
-	var runes []rune
-
-	// Handle UTF-16BE encoding (most common in PDFs)
-	if len(hex) == 4 {
-		// Single BMP character
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) == 2 {
-		// Single byte - treat as code point
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) > 4 {
-		// Multi-character or surrogate pair
-		for i := 0; i < len(hex); i += 4 {
-			end := i + 4
-			if end > len(hex) {
-				end = len(hex)
-			}
-			if val, err := strconv.ParseInt(hex[i:end], 16, 32); err == nil {
-				runes = append(runes, rune(val))
-			}
-		}
+// cmapCode reads a character code.
+func cmapCode(value []byte) (int, bool) {
+	s, ok := syntax.String(value)
+	if !ok || len(s) == 0 || len(s) > 4 {
+		return 0, false
 	}
+	code := 0
+	for _, b := range s {
+		code = code<<8 | int(b)
+	}
+	return code, true
+}
 
-	return runes
+// utf16String decodes UTF-16BE; a single byte is a code point.
+func utf16String(s []byte) string {
+	if len(s) == 1 {
+		return string(rune(s[0]))
+	}
+	units := make([]uint16, 0, len(s)/2)
+	for i := 0; i+1 < len(s); i += 2 {
+		units = append(units, uint16(s[i])<<8|uint16(s[i+1]))
+	}
+	return string(utf16.Decode(units))
 }
 
 // ParseDifferencesArray parses a PDF Differences array
 // Format: [ code1 /name1 /name2 code2 /name3 ... ]
 func (fd *FontDecoder) ParseDifferencesArray(diffStr string) {
-	// Remove brackets
 	diffStr = strings.TrimSpace(diffStr)
-	diffStr = strings.TrimPrefix(diffStr, "[")
-	diffStr = strings.TrimSuffix(diffStr, "]")
+	if !strings.HasPrefix(diffStr, "[") {
+		diffStr = "[" + diffStr + "]"
+	}
+	fd.parseDifferences([]byte(diffStr), nil)
+}
 
-	// Parse tokens
-	tokens := strings.Fields(diffStr)
+// parseDifferences reads a Differences array, whose elements may be references.
+func (fd *FontDecoder) parseDifferences(array []byte, pdf *parse.PDF) {
+	elements, _ := syntax.Array(array)
 	currentCode := 0
-
-	for _, token := range tokens {
-		if strings.HasPrefix(token, "/") {
-			// Glyph name
-			glyphName := strings.TrimPrefix(token, "/")
-			if unicode := glyphNameToUnicode(glyphName); unicode != 0 {
-				fd.differences[currentCode] = unicode
-			}
+	for _, element := range elements {
+		if pdf != nil {
+			element = resolve(pdf, element)
+		}
+		if name, ok := syntax.Name(element); ok {
+			fd.SetDifferences(currentCode, name)
 			currentCode++
-		} else {
-			// Character code
-			if code, err := strconv.Atoi(token); err == nil {
-				currentCode = code
-			}
+		} else if code, ok := syntax.Int(element); ok {
+			currentCode = code
 		}
 	}
 }
@@ -323,8 +322,8 @@ func glyphNameToUnicode(name string) rune {
 		}
 	}
 
-	// Handle uXXXX or uXXXXX format
-	if strings.HasPrefix(name, "u") && (len(name) == 5 || len(name) == 6) {
+	// Handle uXXXX to uXXXXXX format
+	if strings.HasPrefix(name, "u") && len(name) >= 5 && len(name) <= 7 {
 		if val, err := strconv.ParseInt(name[1:], 16, 32); err == nil {
 			return rune(val)
 		}
diff --git a/content/extract/extract.go b/content/extract/extract.go
index 581cb88..989108f 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -6,6 +6,7 @@ package extract
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -71,39 +72,41 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 	}
 	doc.Annotations = allAnnotations
 
-	// Extract images (collect unique images from all pages)
-	imageMap := make(map[string]types.Image)
+	// Extract images and fonts (collect unique ones from all pages, each page's
+	// in order of their names)
+	imageSeen := make(map[string]bool)
+	fontSeen := make(map[string]bool)
 	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Images != nil {
-			for id, img := range page.Resources.Images {
-				if _, exists := imageMap[id]; !exists {
-					imageMap[id] = img
-				}
+		if page.Resources == nil {
+			continue
+		}
+		for _, id := range sortedKeys(page.Resources.Images) {
+			if !imageSeen[id] {
+				imageSeen[id] = true
+				doc.Images = append(doc.Images, page.Resources.Images[id])
 			}
 		}
-	}
-	for _, img := range imageMap {
-		doc.Images = append(doc.Images, img)
-	}
-
-	// Extract fonts (collect unique fonts from all pages)
-	fontMap := make(map[string]types.FontInfo)
-	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Fonts != nil {
-			for id, font := range page.Resources.Fonts {
-				if _, exists := fontMap[id]; !exists {
-					fontMap[id] = font
-				}
+		for _, id := range sortedKeys(page.Resources.Fonts) {
+			if !fontSeen[id] {
+				fontSeen[id] = true
+				doc.Fonts = append(doc.Fonts, page.Resources.Fonts[id])
 			}
 		}
 	}
-	for _, font := range fontMap {
-		doc.Fonts = append(doc.Fonts, font)
-	}
 
 	return doc, nil
 }
 
+// sortedKeys lists the keys of a map in order
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // ExtractContentToJSON extracts content and returns as JSON string
 func ExtractContentToJSON(pdfBytes []byte, password []byte, verbose bool) (string, error) {
 	doc, err := ExtractContent(pdfBytes, password, verbose)
diff --git a/content/extract/images.go b/content/extract/images.go
index 31336e6..833bc06 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -1,148 +1,84 @@
 package extract
 
 import (
-	"bytes"
 	"encoding/base64"
 	"fmt"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// extractImageData extracts actual image binary data from an image XObject
-func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Image, error) {
-	imageObj, err := pdf.GetObject(imageObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get image object %d: %w", imageObjNum, err)
-	}
+// imageFormats are the filters whose encoded data is an image file format of
+// its own, which is kept as it stands.
+var imageFormats = map[string]string{
+	"DCTDecode":      "jpeg",
+	"JPXDecode":      "jpeg2000",
+	"CCITTFaxDecode": "tiff",
+	"JBIG2Decode":    "unknown",
+}
 
-	imageObjBytes := imageObj
-	imageStr := string(imageObjBytes)
+// extractImageData extracts actual image binary data from an image XObject
+func extractImageData(imageObj []byte, id string, pdf *parse.PDF, verbose bool) *types.Image {
 	image := &types.Image{
-		ID:       fmt.Sprintf("/Im%d", imageObjNum),
+		ID:       id,
 		Metadata: make(map[string]interface{}),
 	}
 
-	// Extract Width and Height
-	widthStr := extractDictValue(imageStr, "/Width")
-	heightStr := extractDictValue(imageStr, "/Height")
-	if widthStr != "" {
-		if w, err := strconv.Atoi(widthStr); err == nil {
-			image.Width = w
-		}
-	}
-	if heightStr != "" {
-		if h, err := strconv.Atoi(heightStr); err == nil {
-			image.Height = h
-		}
-	}
+	width, _ := number(pdf, syntax.Get(imageObj, "Width"))
+	height, _ := number(pdf, syntax.Get(imageObj, "Height"))
+	bitsPerComponent, _ := number(pdf, syntax.Get(imageObj, "BitsPerComponent"))
+	image.Width, image.Height, image.BitsPerComponent = int(width), int(height), int(bitsPerComponent)
+	image.ColorSpace = string(lookup(pdf, imageObj, "ColorSpace"))
+	image.Filter = string(lookup(pdf, imageObj, "Filter"))
 
-	// Extract ColorSpace
-	colorSpace := extractDictValue(imageStr, "/ColorSpace")
-	if colorSpace != "" {
-		image.ColorSpace = colorSpace
+	dict, data, ok := syntax.Stream(imageObj)
+	if !ok {
+		return image
 	}
 
-	// Extract BitsPerComponent
-	bitsPerCompStr := extractDictValue(imageStr, "/BitsPerComponent")
-	if bitsPerCompStr != "" {
-		if b, err := strconv.Atoi(bitsPerCompStr); err == nil {
-			image.BitsPerComponent = b
-		}
+	// Determine format from the filters
+	filters, isArray := syntax.Array(lookup(pdf, imageObj, "Filter"))
+	if !isArray && image.Filter != "" {
+		filters = [][]byte{[]byte(image.Filter)}
 	}
-
-	// Extract Filter to determine format and decompression method
-	filter := extractDictValue(imageStr, "/Filter")
-	if filter != "" {
-		image.Filter = filter
-		// Determine format from filter
-		if filter == "/DCTDecode" || strings.Contains(filter, "DCTDecode") {
-			image.Format = "jpeg"
-		} else if filter == "/FlateDecode" || strings.Contains(filter, "FlateDecode") {
+	var undone []string
+	for _, filter := range filters {
+		name, _ := syntax.Name(resolve(pdf, filter))
+		if format, ok := imageFormats[name]; ok {
+			image.Format = format
+			break
+		}
+		undone = append(undone, syntax.FormatName(name))
+		image.Format = "unknown"
+		if name == "FlateDecode" {
 			image.Format = "png" // Could be PNG or other FlateDecode image
-		} else if filter == "/CCITTFaxDecode" || strings.Contains(filter, "CCITTFaxDecode") {
-			image.Format = "tiff"
-		} else if filter == "/JPXDecode" || strings.Contains(filter, "JPXDecode") {
-			image.Format = "jpeg2000"
-		} else {
-			image.Format = "unknown"
 		}
 	}
 
-	// Extract stream data - handle binary data properly
-	streamIdx := bytes.Index(imageObjBytes, []byte("stream"))
-	if streamIdx != -1 {
-		// Get /Length from dictionary for exact stream size
-		dictPart := imageObjBytes[:streamIdx]
-		lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-		lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-		var streamLength int
-		if lengthMatch != nil {
-			streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-		}
-
-		// Find actual stream data (after "stream\r\n" or "stream\n")
-		streamDataStart := streamIdx + 6 // len("stream")
-		// Skip exactly one EOL per PDF spec
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\n' {
-			streamDataStart++
-		}
-
-		// Use /Length if available, otherwise find endstream
-		var streamData []byte
-		if streamLength > 0 && streamDataStart+streamLength <= len(imageObjBytes) {
-			streamData = imageObjBytes[streamDataStart : streamDataStart+streamLength]
-		} else {
-			endstreamIdx := bytes.Index(imageObjBytes[streamDataStart:], []byte("endstream"))
-			if endstreamIdx != -1 {
-				streamData = imageObjBytes[streamDataStart : streamDataStart+endstreamIdx]
-			}
-		}
-
-		if len(streamData) > 0 {
-			// Decompress if needed
-			if filter != "" {
-				if strings.Contains(filter, "FlateDecode") {
-					// Decompress FlateDecode
-					decompressed, err := parse.DecodeFlateDecode(streamData)
-					if err == nil {
-						image.Data = decompressed
-					} else {
-						if verbose {
-							fmt.Printf("Warning: failed to decompress FlateDecode image: %v\n", err)
-						}
-						image.Data = streamData
-					}
-				} else if strings.Contains(filter, "DCTDecode") {
-					// DCTDecode (JPEG) - data is already JPEG, no decompression needed
-					image.Data = streamData
-				} else {
-					// Other filters - use raw data
-					image.Data = streamData
-				}
-			} else {
-				// No filter - use raw data
-				image.Data = streamData
-			}
+	// Decompress if needed, up to the image format's own encoding
+	if len(undone) < len(filters) {
+		dict = syntax.Set(dict, "Filter", []byte("["+strings.Join(undone, " ")+"]"))
+	}
+	image.Data = data
+	decoded, err := decodeStream(pdf, dict, data)
+	if err == nil {
+		image.Data = decoded
+	} else if verbose {
+		fmt.Printf("Warning: failed to decode image %s: %v\n", id, err)
+	}
 
-			// Set base64 encoded version for JSON serialization
-			if len(image.Data) > 0 {
-				image.DataBase64 = base64.StdEncoding.EncodeToString(image.Data)
-			}
-		}
+	// Set base64 encoded version for JSON serialization
+	if len(image.Data) > 0 {
+		image.DataBase64 = base64.StdEncoding.EncodeToString(image.Data)
 	}
 
-	return image, nil
+	return image
 }
 
-// ExtractAllImages extracts all images from a PDF document with binary data
+// ExtractAllImages extracts all images from a PDF document with binary data,
+// in the order of the pages that use them
 func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.Image, error) {
 	// Parse PDF
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
@@ -153,161 +89,25 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 		return []types.Image{}, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	// First get metadata to find all images
-	doc, err := ExtractContent(pdfBytes, password, verbose)
+	nodes, err := pageNodes(pdf, verbose)
 	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to extract content: %w", err)
+		return []types.Image{}, fmt.Errorf("failed to extract pages: %w", err)
 	}
 
 	allImages := make([]types.Image, 0)
-	imageMap := make(map[string]bool)      // Track unique images by ID
-	imageObjNumMap := make(map[string]int) // Map image name to object number
-
-	// Collect image object numbers by re-parsing Resources from pages
-	// We need to get the actual page object numbers to extract Resources
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return []types.Image{}, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return []types.Image{}, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Recursively find all page objects
-	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, verbose)
-
-	// For each page, extract Resources and get image object numbers
-	for i, pageObjNum := range pageObjNums {
-		if i >= len(doc.Pages) {
-			break
-		}
-
-		pageObj, err := pdf.GetObject(pageObjNum)
-		if err != nil {
-			continue
-		}
-
-		pageStr := string(pageObj)
-		// Extract Resources
-		resourcesRef := extractDictValue(pageStr, "/Resources")
-		var resourcesStr string
-		if resourcesRef != "" {
-			resourcesObjNum, err := parseObjectRef(resourcesRef)
-			if err == nil {
-				resourcesObj, err := pdf.GetObject(resourcesObjNum)
-				if err == nil {
-					resourcesStr = string(resourcesObj)
-				}
-			}
-		} else {
-			// Inline Resources
-			resourcesStr = extractInlineDict(pageStr, "/Resources")
-		}
-
-		if resourcesStr != "" {
-			// Extract XObject object numbers
-			_, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
-			for name, objNum := range objNums {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					imageObjNumMap[name] = objNum
-					imageMap[imageID] = true
-				}
-			}
-		}
-	}
-
-	// Extract full image data with binary for each unique image
-	for name, objNum := range imageObjNumMap {
-		image, err := extractImageData(objNum, pdf, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, objNum, err)
-			}
-			// Fall back to metadata-only image from Resources
-			for _, page := range doc.Pages {
-				if page.Resources != nil {
-					if img, ok := page.Resources.Images[name]; ok {
-						allImages = append(allImages, img)
-						break
-					}
-				}
+	seen := make(map[string]bool) // Resource name and object number
+	for _, node := range nodes {
+		for _, entry := range namedResources(node.attribute(pdf, "Resources"), "XObject", pdf) {
+			if lookupName(pdf, entry.value, "Subtype") != "/Image" {
+				continue
 			}
-		} else {
-			allImages = append(allImages, *image)
-		}
-	}
-
-	// Also add any images we found but couldn't get object numbers for (metadata only)
-	for _, page := range doc.Pages {
-		if page.Resources != nil {
-			for name, image := range page.Resources.Images {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					allImages = append(allImages, image)
-					imageMap[imageID] = true
-				}
+			key := fmt.Sprintf("%d %s", entry.objNum, entry.name)
+			if seen[key] {
+				continue
 			}
+			seen[key] = true
+			allImages = append(allImages, *extractImageData(entry.value, "/"+entry.name, pdf, verbose))
 		}
 	}
-
 	return allImages, nil
 }
-
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []int {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return pageObjNums
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums
-	}
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages := extractPageObjectNumbers(pdf, kidObjNum, verbose)
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums
-}
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index c9fea03..c96fdf6 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -2,12 +2,12 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 	"time"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -15,11 +15,16 @@ import (
 func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.DocumentMetadata, error) {
 	metadata := &types.DocumentMetadata{
 		PDFVersion: pdf.Version(),
-		PageCount:  pdf.ObjectCount(), // Will be updated when we parse pages
 		Encrypted:  pdf.IsEncrypted(),
 		Custom:     make(map[string]string),
 	}
 
+	if nodes, err := pageNodes(pdf, verbose); err == nil {
+		metadata.PageCount = len(nodes)
+	} else if verbose {
+		fmt.Printf("Warning: failed to count pages: %v\n", err)
+	}
+
 	// Extract from Info dictionary if available
 	trailer := pdf.Trailer()
 	if trailer != nil && trailer.InfoRef != "" {
@@ -28,7 +33,7 @@ func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.Docu
 		if err == nil {
 			infoObj, err := pdf.GetObject(infoObjNum)
 			if err == nil {
-				parseInfoDict(string(infoObj), metadata, verbose)
+				parseInfoDict(infoObj, pdf, metadata)
 			}
 		}
 	}
@@ -55,67 +60,28 @@ func parseObjectRef(ref string) (int, error) {
 }
 
 // parseInfoDict parses a PDF Info dictionary
-func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose bool) {
-	// Extract common fields
-	patterns := map[string]*regexp.Regexp{
-		"title":         regexp.MustCompile(`/Title\s*\(([^)]*)\)`),
-		"author":        regexp.MustCompile(`/Author\s*\(([^)]*)\)`),
-		"subject":       regexp.MustCompile(`/Subject\s*\(([^)]*)\)`),
-		"keywords":      regexp.MustCompile(`/Keywords\s*\(([^)]*)\)`),
-		"creator":       regexp.MustCompile(`/Creator\s*\(([^)]*)\)`),
-		"producer":      regexp.MustCompile(`/Producer\s*\(([^)]*)\)`),
-		"creation_date": regexp.MustCompile(`/CreationDate\s*\(([^)]*)\)`),
-		"mod_date":      regexp.MustCompile(`/ModDate\s*\(([^)]*)\)`),
-	}
-
-	fieldMap := map[string]*string{
-		"title":         &metadata.Title,
-		"author":        &metadata.Author,
-		"subject":       &metadata.Subject,
-		"keywords":      &metadata.Keywords,
-		"creator":       &metadata.Creator,
-		"producer":      &metadata.Producer,
-		"creation_date": &metadata.CreationDate,
-		"mod_date":      &metadata.ModDate,
+func parseInfoDict(info []byte, pdf *parse.PDF, metadata *types.DocumentMetadata) {
+	fields := map[string]*string{
+		"Title":        &metadata.Title,
+		"Author":       &metadata.Author,
+		"Subject":      &metadata.Subject,
+		"Keywords":     &metadata.Keywords,
+		"Creator":      &metadata.Creator,
+		"Producer":     &metadata.Producer,
+		"CreationDate": &metadata.CreationDate,
+		"ModDate":      &metadata.ModDate,
 	}
-
-	for key, pattern := range patterns {
-		match := pattern.FindStringSubmatch(infoStr)
-		if len(match) > 1 {
-			value := unescapePDFString(match[1])
-			if fieldPtr, ok := fieldMap[key]; ok {
-				*fieldPtr = value
-			}
+	entries, _, _ := syntax.Entries(info)
+	for _, entry := range entries {
+		value, ok := syntax.TextString(resolve(pdf, info[entry.ValStart:entry.ValueEnd]))
+		if !ok {
+			continue
 		}
-	}
-
-	// Extract custom fields (any field that's not a standard field)
-	// Pattern: /FieldName (value)
-	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(([^)]*)\)`)
-	standardFields := map[string]bool{
-		"Title":        true,
-		"Author":       true,
-		"Subject":      true,
-		"Keywords":     true,
-		"Creator":      true,
-		"Producer":     true,
-		"CreationDate": true,
-		"ModDate":      true,
-	}
-
-	allMatches := customPattern.FindAllStringSubmatch(infoStr, -1)
-	for _, match := range allMatches {
-		if len(match) >= 3 {
-			fieldName := match[1]
-			fieldValue := unescapePDFString(match[2])
-
-			// Skip if it's a standard field (already extracted)
-			if !standardFields[fieldName] {
-				if metadata.Custom == nil {
-					metadata.Custom = make(map[string]string)
-				}
-				metadata.Custom[fieldName] = fieldValue
-			}
+		if field, ok := fields[entry.Key]; ok {
+			*field = value
+		} else {
+			// Any text that's not a standard field
+			metadata.Custom[entry.Key] = value
 		}
 	}
 }
@@ -126,18 +92,6 @@ func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata,
 	// In practice, Info dict parsing should work
 }
 
-// unescapePDFString unescapes a PDF string literal
-func unescapePDFString(s string) string {
-	// Handle basic PDF string escaping
-	s = strings.ReplaceAll(s, "\\n", "\n")
-	s = strings.ReplaceAll(s, "\\r", "\r")
-	s = strings.ReplaceAll(s, "\\t", "\t")
-	s = strings.ReplaceAll(s, "\\(", "(")
-	s = strings.ReplaceAll(s, "\\)", ")")
-	s = strings.ReplaceAll(s, "\\\\", "\\")
-	return s
-}
-
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm)
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm).
 // This function is available for future use when date parsing is needed.
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 7523801..b7d058d 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -1,383 +1,181 @@
 package extract
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractPages extracts all pages from a PDF
 func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page, error) {
+	nodes, err := pageNodes(pdf, verbose)
+	if err != nil {
+		return nil, err
+	}
+
 	var pages []types.Page
+	for i, node := range nodes {
+		page := extractPage(pdf, node, verbose)
+		page.PageNumber = i + 1
+		for k := range page.Annotations {
+			page.Annotations[k].PageNumber = i + 1
+		}
+		pages = append(pages, page)
+	}
+	return pages, nil
+}
+
+// pageNode is a page of the page tree with the attributes it inherits.
+type pageNode struct {
+	objNum    int
+	dict      []byte
+	inherited map[string][]byte
+}
+
+// inheritable are the attributes a page takes from its ancestors.
+var inheritable = []string{"Resources", "MediaBox", "CropBox", "Rotate"}
+
+// attribute returns a page's own or inherited attribute, or nil.
+func (n pageNode) attribute(pdf *parse.PDF, key string) []byte {
+	if value := lookup(pdf, n.dict, key); value != nil {
+		return value
+	}
+	return n.inherited[key]
+}
 
-	// Get catalog to find pages tree
+// pageNodes lists the pages of a document in order.
+func pageNodes(pdf *parse.PDF, verbose bool) ([]pageNode, error) {
 	trailer := pdf.Trailer()
 	if trailer == nil || trailer.RootRef == "" {
 		return nil, fmt.Errorf("no root reference found in trailer")
 	}
-
 	rootObjNum, err := parseObjectRef(trailer.RootRef)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse root reference: %w", err)
 	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
+	catalog, err := pdf.GetObject(rootObjNum)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get catalog object: %w", err)
 	}
-
-	// Find Pages reference in catalog
-	catalogStr := string(catalogObj)
-	if verbose {
-		fmt.Printf("Catalog object: %s\n", catalogStr)
-	}
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference found in catalog: %s", catalogStr)
+	pages := syntax.Get(catalog, "Pages")
+	if pages == nil {
+		return nil, fmt.Errorf("no /Pages reference found in catalog: %s", catalog)
 	}
-
-	if verbose {
-		fmt.Printf("Found Pages reference: %s\n", pagesRef)
-	}
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference %s: %w", pagesRef, err)
+	pagesObjNum, _, ok := syntax.Ref(pages)
+	if !ok {
+		return nil, fmt.Errorf("failed to parse Pages reference %s", pages)
 	}
-
-	if verbose {
-		fmt.Printf("Pages object number: %d\n", pagesObjNum)
-	}
-
-	// Extract pages from pages tree
-	pages, err = extractPagesFromTree(pdfBytes, pdf, pagesObjNum, verbose)
-	if err != nil {
+	if _, err := pdf.GetObject(pagesObjNum); err != nil {
 		return nil, fmt.Errorf("failed to extract pages from tree: %w", err)
 	}
 
-	// Update page numbers
-	for i := range pages {
-		pages[i].PageNumber = i + 1
-	}
-
-	return pages, nil
-}
-
-// extractPagesFromTree recursively extracts pages from a pages tree
-func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verbose bool) ([]types.Page, error) {
-	var result []types.Page
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get pages object %d: %w", pagesObjNum, err)
-	}
-
-	pagesStr := string(pagesObj)
-	if verbose {
-		fmt.Printf("Pages object %d: %s\n", pagesObjNum, pagesStr)
-	}
-
-	// Check if this is a page or a pages node
-	// Look for /Type/Page or /Type/Pages in the dictionary
-	// Need to check for exact match, not substring (e.g., /Type/Page should not match /Type/Pages)
-	pageType := ""
-	if strings.Contains(pagesStr, "/Type/Pages") || strings.Contains(pagesStr, "/Type /Pages") {
-		pageType = "/Pages"
-	} else if strings.Contains(pagesStr, "/Type/Page") || strings.Contains(pagesStr, "/Type /Page") {
-		// Make sure it's not /Type/Pages
-		if !strings.Contains(pagesStr, "/Type/Pages") && !strings.Contains(pagesStr, "/Type /Pages") {
-			pageType = "/Page"
+	var nodes []pageNode
+	visited := make(map[int]bool)
+	var walk func(ref []byte, inherited map[string][]byte)
+	walk = func(ref []byte, inherited map[string][]byte) {
+		objNum, _, ok := syntax.Ref(ref)
+		if !ok || visited[objNum] {
+			return
 		}
-	}
-	if verbose {
-		fmt.Printf("Type: %s (from string check)\n", pageType)
-	}
-	if pageType == "/Page" {
-		// This is a page object
-		page, err := extractPage(pdfBytes, pdf, pagesObjNum, pagesStr, verbose)
-		if err != nil {
+		dict := resolve(pdf, ref)
+		if _, _, ok := syntax.Entries(dict); !ok {
 			if verbose {
-				fmt.Printf("Warning: failed to extract page %d: %v\n", pagesObjNum, err)
+				fmt.Printf("Warning: page tree node %d is not a dictionary\n", objNum)
 			}
-			return result, nil
+			return
 		}
-		return []types.Page{page}, nil
-	}
-
-	// This is a pages node - get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if verbose {
-		fmt.Printf("Kids string: %s\n", kidsStr)
-	}
-	if kidsStr == "" {
-		if verbose {
-			fmt.Printf("No Kids array found in pages object\n")
+		kids, hasKids := syntax.Array(lookup(pdf, dict, "Kids"))
+		nodeType := lookupName(pdf, dict, "Type")
+		if nodeType == "/Page" || (!hasKids && nodeType != "/Pages") {
+			nodes = append(nodes, pageNode{objNum: objNum, dict: dict, inherited: inherited})
+			return
 		}
-		return result, nil
-	}
-
-	// Parse Kids array (e.g., "[5 0 R 6 0 R 7 0 R]" or "5 0 R 6 0 R")
-	// If kidsStr already starts with [, use it as-is, otherwise wrap it
-	if !strings.HasPrefix(kidsStr, "[") {
-		kidsStr = "[" + kidsStr + "]"
-	}
-	kids := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kids {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to parse kid reference %s: %v\n", kidRef, err)
-			}
-			continue
+		visited[objNum] = true
+		own := make(map[string][]byte)
+		for _, key := range inheritable {
+			own[key] = pageNode{dict: dict, inherited: inherited}.attribute(pdf, key)
 		}
-
-		// Recursively extract from child
-		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract from child %d: %v\n", kidObjNum, err)
-			}
-			continue
+		for _, kid := range kids {
+			walk(kid, own)
 		}
-
-		result = append(result, childPages...)
 	}
-
-	return result, nil
+	walk(pages, nil)
+	return nodes, nil
 }
 
 // extractPage extracts a single page
-func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string, verbose bool) (types.Page, error) {
+func extractPage(pdf *parse.PDF, node pageNode, verbose bool) types.Page {
 	page := types.Page{
-		PageNumber:  0, // Will be set by caller
 		Text:        []types.TextElement{},
 		Graphics:    []types.Graphic{},
 		Images:      []types.ImageRef{},
 		Annotations: []types.Annotation{},
 	}
 
-	// Extract media box
-	mediaBox := extractArrayValue(pageStr, "/MediaBox")
-	if len(mediaBox) >= 4 {
-		page.MediaBox = &types.Rectangle{
-			LowerX: mediaBox[0],
-			LowerY: mediaBox[1],
-			UpperX: mediaBox[2],
-			UpperY: mediaBox[3],
-		}
-		page.Width = mediaBox[2] - mediaBox[0]
-		page.Height = mediaBox[3] - mediaBox[1]
+	// Extract boxes and rotation
+	page.MediaBox = rectangle(pdf, node.attribute(pdf, "MediaBox"))
+	if page.MediaBox != nil {
+		page.Width = page.MediaBox.UpperX - page.MediaBox.LowerX
+		page.Height = page.MediaBox.UpperY - page.MediaBox.LowerY
 	}
-
-	// Extract crop box
-	cropBox := extractArrayValue(pageStr, "/CropBox")
-	if len(cropBox) >= 4 {
-		page.CropBox = &types.Rectangle{
-			LowerX: cropBox[0],
-			LowerY: cropBox[1],
-			UpperX: cropBox[2],
-			UpperY: cropBox[3],
-		}
+	page.CropBox = rectangle(pdf, node.attribute(pdf, "CropBox"))
+	page.BleedBox = rectangle(pdf, syntax.Get(node.dict, "BleedBox"))
+	page.TrimBox = rectangle(pdf, syntax.Get(node.dict, "TrimBox"))
+	page.ArtBox = rectangle(pdf, syntax.Get(node.dict, "ArtBox"))
+	if rotation, ok := number(pdf, node.attribute(pdf, "Rotate")); ok {
+		page.Rotation = int(rotation)
 	}
 
-	// Extract rotation
-	rotationStr := extractDictValue(pageStr, "/Rotate")
-	if rotationStr != "" {
-		if rot, err := strconv.Atoi(rotationStr); err == nil {
-			page.Rotation = rot
-		}
+	// Extract resources
+	resources := node.attribute(pdf, "Resources")
+	if resources != nil {
+		page.Resources = extractResources(resources, pdf, verbose)
 	}
 
-	// Extract resources FIRST (needed for font decoders for text extraction)
-	var resourcesStr string
-	resourcesRef := extractDictValue(pageStr, "/Resources")
-	if resourcesRef != "" {
-		// Resources is a reference to another object
-		resourcesObjNum, err := parseObjectRef(resourcesRef)
-		if err == nil {
-			resourcesObj, err := pdf.GetObject(resourcesObjNum)
-			if err == nil {
-				resourcesStr = string(resourcesObj)
-				page.Resources = extractResources(resourcesStr, pdf, verbose)
-			}
-		}
-	} else {
-		// Resources might be inline - extract the Resources dictionary from page string
-		resourcesDictStr := extractInlineDict(pageStr, "/Resources")
-		if resourcesDictStr != "" {
-			resourcesStr = resourcesDictStr
-			page.Resources = extractResources(resourcesStr, pdf, verbose)
-		}
-	}
-
-	// Extract font decoders for text extraction
-	var fontDecoders map[string]*FontDecoder
-	if resourcesStr != "" {
-		fontDecoders = extractFontDecoders(resourcesStr, pdf, verbose)
-	}
-
-	// Extract content streams
-	contents := extractDictValue(pageStr, "/Contents")
-	if contents != "" {
-		// Contents can be a single reference or an array
-		// Decompress and parse content stream
-		contentRefs := parseObjectRefArray(contents)
-		if len(contentRefs) == 0 {
-			// Try as single reference
-			contentRefs = []string{contents}
-		}
-
-		// Extract text and graphics from content streams
-		for _, contentRef := range contentRefs {
-			contentObjNum, err := parseObjectRef(contentRef)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to parse content reference %s: %v\n", contentRef, err)
-				}
-				continue
-			}
-
-			contentObj, err := pdf.GetObject(contentObjNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get content object %d: %v\n", contentObjNum, err)
-				}
-				continue
-			}
-
-			// Parse content stream
-			// Content streams are usually stored as stream objects with FlateDecode
-			// We need to get the actual stream data, not the object wrapper
-			contentStr := string(contentObj)
-
-			// Check if this is a stream object and extract/decompress the stream data
-			if strings.Contains(contentStr, "stream") {
-				streamIdx := strings.Index(contentStr, "stream")
-				if streamIdx != -1 {
-					// Check for FlateDecode filter
-					isCompressed := strings.Contains(contentStr, "/FlateDecode")
-
-					// Extract stream data
-					dataStart := streamIdx + 6 // Skip "stream"
-					// Skip EOL after "stream"
-					if dataStart < len(contentStr) && (contentStr[dataStart] == '\r' || contentStr[dataStart] == '\n') {
-						dataStart++
-					}
-					if dataStart < len(contentStr) && contentStr[dataStart] == '\n' {
-						dataStart++
-					}
-
-					endstreamIdx := strings.Index(contentStr[dataStart:], "endstream")
-					if endstreamIdx != -1 {
-						streamData := []byte(contentStr[dataStart : dataStart+endstreamIdx])
-
-						// Decompress if needed using parse package
-						if isCompressed {
-							// Use parse.DecodeFlateDecode which handles both zlib and raw deflate
-							decompressed, err := parse.DecodeFlateDecode(streamData)
-							if err == nil {
-								contentStr = string(decompressed)
-							} else {
-								// Fallback to raw if decompression fails
-								contentStr = string(streamData)
-							}
-						} else {
-							contentStr = string(streamData)
-						}
-					}
-				}
-			}
-
-			textElements, graphics, images := parseContentStreamWithDecoders(contentStr, pdf, pageObjNum, fontDecoders, verbose)
-			page.Text = append(page.Text, textElements...)
-			page.Graphics = append(page.Graphics, graphics...)
-			page.Images = append(page.Images, images...)
-		}
+	// Extract text, graphics and images from the content streams, which make
+	// up one stream of operators
+	if content := pageContent(pdf, node, verbose); len(content) > 0 {
+		text, graphics, images := parseContentStream(content, pdf, resources, verbose)
+		page.Text = append(page.Text, text...)
+		page.Graphics = append(page.Graphics, graphics...)
+		page.Images = append(page.Images, images...)
 	}
 
 	// Extract annotations
-	// extractDictValue already handles arrays and returns them as "[...]" strings
-	annotsRef := extractDictValue(pageStr, "/Annots")
-	if annotsRef != "" {
-		annotations := extractAnnotations(annotsRef, pdf, pageObjNum, verbose)
-		page.Annotations = annotations
-	}
+	page.Annotations = append(page.Annotations, extractAnnotations(syntax.Get(node.dict, "Annots"), pdf, verbose)...)
 
-	return page, nil
+	return page
 }
 
-// Helper functions for parsing PDF dictionaries and arrays
-
-func extractDictValue(dictStr, key string) string {
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	// This handles PDF dictionaries where values immediately follow keys
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
-	}
-
-	// Try to match array value (e.g., "/Kids[4 0 R ]")
-	arrayPattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[([^\]]+)\]`)
-	arrayMatch := arrayPattern.FindStringSubmatch(dictStr)
-	if len(arrayMatch) > 1 {
-		return "[" + arrayMatch[1] + "]"
+// pageContent returns a page's decoded content streams, separated by line feeds.
+func pageContent(pdf *parse.PDF, node pageNode, verbose bool) []byte {
+	contents := syntax.Get(node.dict, "Contents")
+	streams := [][]byte{contents}
+	if elements, ok := syntax.Array(resolve(pdf, contents)); ok {
+		streams = elements
 	}
-
-	return ""
-}
-
-func extractArrayValue(dictStr, key string) []float64 {
-	// Find the array after the key (e.g., "/MediaBox [0 0 612 792]")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[\s*([^\]]+)\]`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if match == nil || len(match) < 2 {
-		return nil
-	}
-
-	// Parse numbers from array
-	parts := strings.Fields(match[1])
-	var values []float64
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
-			values = append(values, val)
+	var parts [][]byte
+	for _, stream := range streams {
+		data, err := streamData(pdf, resolve(pdf, stream))
+		if err != nil {
+			if verbose {
+				fmt.Printf("Warning: failed to decode content stream %s of page object %d: %v\n", stream, node.objNum, err)
+			}
+			continue
 		}
+		parts = append(parts, data)
 	}
-	return values
+	return bytes.Join(parts, []byte("\n"))
 }
 
-func parseObjectRefArray(arrStr string) []string {
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Split by references (pattern: "5 0 R")
-	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)
-	matches := pattern.FindAllStringSubmatch(arrStr, -1)
-
-	var refs []string
-	for _, match := range matches {
-		if len(match) > 0 {
-			refs = append(refs, match[0])
-		}
+// rectangle reads a rectangle, following references, or returns nil.
+func rectangle(pdf *parse.PDF, value []byte) *types.Rectangle {
+	box := numbers(pdf, value)
+	if len(box) < 4 {
+		return nil
 	}
-
-	return refs
+	return &types.Rectangle{LowerX: box[0], LowerY: box[1], UpperX: box[2], UpperY: box[3]}
 }
-
-// parseContentStream is implemented in content_stream.go
-
-// extractResources is implemented in resources.go
-
-// extractAnnotations is implemented in annotations.go
diff --git a/content/extract/resources.go b/content/extract/resources.go
index ae9a6dc..33908b1 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -2,16 +2,15 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // extractResources extracts resources from a Resources dictionary
-func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.PageResources {
+func extractResources(dict []byte, pdf *parse.PDF, verbose bool) *types.PageResources {
 	resources := &types.PageResources{
 		Fonts:       make(map[string]types.FontInfo),
 		Images:      make(map[string]types.Image),
@@ -22,26 +21,29 @@ func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.
 	}
 
 	// Extract fonts
-	fontsDict := extractFontsDict(resourcesStr, pdf, verbose)
-	if fontsDict != nil {
-		resources.Fonts = fontsDict
+	for _, entry := range namedResources(dict, "Font", pdf) {
+		if fontInfo := extractFontInfo(entry.value, pdf); fontInfo != nil {
+			fontInfo.ID = "/" + entry.name
+			resources.Fonts[entry.name] = *fontInfo
+		}
 	}
 
 	// Extract XObjects (images and forms)
-	xobjectsDict := extractXObjectsDict(resourcesStr, pdf, verbose)
-	if xobjectsDict != nil {
-		resources.XObjects = xobjectsDict
+	for _, entry := range namedResources(dict, "XObject", pdf) {
+		xobject := extractXObjectInfo(entry.value, pdf)
+		if xobject == nil {
+			continue
+		}
+		xobject.ID = "/" + entry.name
+		resources.XObjects[entry.name] = *xobject
 		// Also populate Images from XObjects (for metadata)
 		// Note: Binary data extraction is done separately via extractImageData()
-		for name, xobj := range xobjectsDict {
-			if xobj.Subtype == "/Image" {
-				image := types.Image{
-					ID:     "/" + name,
-					Width:  int(xobj.Width),
-					Height: int(xobj.Height),
-					Format: "unknown", // Will be determined when extracting actual image data
-				}
-				resources.Images[name] = image
+		if xobject.Subtype == "/Image" {
+			resources.Images[entry.name] = types.Image{
+				ID:     xobject.ID,
+				Width:  int(xobject.Width),
+				Height: int(xobject.Height),
+				Format: "unknown", // Will be determined when extracting actual image data
 			}
 		}
 	}
@@ -49,568 +51,144 @@ func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.
 	return resources
 }
 
-// extractFontsDict extracts font information from /Resources/Font dictionary
-func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.FontInfo {
-	fonts := make(map[string]types.FontInfo)
-
-	if verbose {
-		fmt.Printf("Extracting fonts from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
-	}
-
-	// Find /Font dictionary - handle both << >> and inline formats
-	// Pattern: /Font<<...>> or /Font <<...>>
-	// First try simple pattern
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			// Find the << after /Font
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				// Find matching >>
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
-	}
-
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources\n")
-		}
-		return fonts
-	}
+// namedResource is an entry of one category of a resource dictionary.
+type namedResource struct {
+	name   string
+	objNum int // 0 when the resource is a direct object
+	value  []byte
+}
 
-	fontDictStr := fontMatch[1]
-	if verbose {
-		fmt.Printf("Found Font dictionary: %s\n", fontDictStr)
+// namedResources lists the resources of one category, in the dictionary's order.
+func namedResources(resources []byte, category string, pdf *parse.PDF) []namedResource {
+	if pdf == nil {
+		return nil
 	}
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
-
-	if verbose {
-		fmt.Printf("Found %d font entries\n", len(fontEntries))
+	dict := lookup(pdf, resources, category)
+	entries, _, ok := syntax.Entries(dict)
+	if !ok {
+		return nil
 	}
-
-	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		fontInfo := extractFontInfo(fontObjNum, pdf, verbose)
-		if fontInfo != nil {
-			fontInfo.ID = "/" + fontName
-			fonts[fontName] = *fontInfo
+	var named []namedResource
+	for _, entry := range entries {
+		text := dict[entry.ValStart:entry.ValueEnd]
+		objNum, _, _ := syntax.Ref(text)
+		if value := resolve(pdf, text); value != nil {
+			named = append(named, namedResource{name: entry.Key, objNum: objNum, value: value})
 		}
 	}
-
-	return fonts
+	return named
 }
 
-// extractFontInfo extracts information from a font dictionary object
-func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontInfo {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
-		}
-		return nil
-	}
-
-	fontStr := string(fontObj)
-	fontInfo := &types.FontInfo{
-		Embedded: false,
-	}
+// extractFontInfo extracts information from a font dictionary
+func extractFontInfo(font []byte, pdf *parse.PDF) *types.FontInfo {
+	fontInfo := &types.FontInfo{Subtype: "Unknown"}
 
-	// Extract Subtype (Type1, TrueType, Type0, etc.)
-	// Try both /Subtype and Subtype (with and without leading /)
-	subtype := extractDictValue(fontStr, "/Subtype")
-	if subtype == "" {
-		subtype = extractDictValue(fontStr, "Subtype")
-	}
-	if subtype != "" {
+	if subtype := lookupName(pdf, font, "Subtype"); subtype != "" {
 		fontInfo.Subtype = subtype
-		// Ensure it starts with /
-		if !strings.HasPrefix(fontInfo.Subtype, "/") {
-			fontInfo.Subtype = "/" + fontInfo.Subtype
-		}
-	} else {
-		fontInfo.Subtype = "Unknown"
 	}
 
-	// Extract BaseFont
-	baseFont := extractDictValue(fontStr, "/BaseFont")
-	if baseFont == "" {
-		baseFont = extractDictValue(fontStr, "BaseFont")
-	}
-	if baseFont != "" {
+	if baseFont := lookupName(pdf, font, "BaseFont"); baseFont != "" {
 		fontInfo.Name = baseFont
-		// Remove leading / if present for family extraction
-		familyName := strings.TrimPrefix(baseFont, "/")
-		// Try to extract family name from BaseFont (e.g., "Helvetica-Bold" -> "Helvetica")
-		parts := strings.Split(familyName, "-")
-		if len(parts) > 0 {
-			fontInfo.Family = parts[0]
-		}
-	}
-
-	// Extract Encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
-		fontInfo.Encoding = encoding
-	}
-
-	// Check if font is embedded (has FontDescriptor with FontFile, FontFile2, or FontFile3)
-	if strings.Contains(fontStr, "/FontFile") || strings.Contains(fontStr, "/FontFile2") || strings.Contains(fontStr, "/FontFile3") {
-		fontInfo.Embedded = true
+		// Extract family name from BaseFont (e.g., "Helvetica-Bold" -> "Helvetica")
+		fontInfo.Family = strings.Split(strings.TrimPrefix(baseFont, "/"), "-")[0]
 	}
 
-	// Check for ToUnicode CMap
-	if strings.Contains(fontStr, "/ToUnicode") {
-		fontInfo.ToUnicode = true
+	fontInfo.Encoding = lookupName(pdf, font, "Encoding")
+	if fontInfo.Encoding == "" {
+		fontInfo.Encoding = lookupName(pdf, lookup(pdf, font, "Encoding"), "BaseEncoding")
 	}
+	fontInfo.ToUnicode = lookup(pdf, font, "ToUnicode") != nil
 
-	// Extract FontDescriptor for more info
-	fontDescriptorRef := extractDictValue(fontStr, "/FontDescriptor")
-	if fontDescriptorRef != "" {
-		descObjNum, err := parseObjectRef(fontDescriptorRef)
-		if err == nil {
-			descObj, err := pdf.GetObject(descObjNum)
-			if err == nil {
-				descStr := string(descObj)
-				// Check for embedded font files in descriptor
-				if strings.Contains(descStr, "/FontFile") || strings.Contains(descStr, "/FontFile2") || strings.Contains(descStr, "/FontFile3") {
-					fontInfo.Embedded = true
-				}
-				// Extract font family name if available
-				fontFamily := extractDictValue(descStr, "/FontFamily")
-				if fontFamily != "" {
-					fontInfo.Family = fontFamily
-				}
-			}
-		}
-	}
-
-	return fontInfo
-}
-
-// extractXObjectsDict extracts XObject information from /Resources/XObject dictionary
-func extractXObjectsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.XObject {
-	xobjects := make(map[string]types.XObject)
-
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 == nil {
-			return xobjects
-		}
-		xobjMatch = xobjMatch2
+	// The descriptor (of the descendant font in a Type0 font) says whether the
+	// font is embedded
+	described := font
+	if descendants, ok := syntax.Array(lookup(pdf, font, "DescendantFonts")); ok && len(descendants) > 0 {
+		described = resolve(pdf, descendants[0])
 	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
-		if xobj != nil {
-			xobj.ID = "/" + xobjName
-			xobjects[xobjName] = *xobj
-		}
-	}
-
-	return xobjects
-}
-
-// extractXObjectsDictWithObjNums extracts XObject information with object numbers
-func extractXObjectsDictWithObjNums(resourcesStr string, pdf *parse.PDF, verbose bool) (map[string]types.XObject, map[string]int) {
-	xobjects := make(map[string]types.XObject)
-	objNums := make(map[string]int) // image name -> object number
-
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 != nil {
-			xobjMatch = xobjMatch2
-		} else {
-			return xobjects, objNums
+	descriptor := lookup(pdf, described, "FontDescriptor")
+	for _, key := range []string{"FontFile", "FontFile2", "FontFile3"} {
+		if syntax.Get(descriptor, key) != nil {
+			fontInfo.Embedded = true
 		}
 	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-		objNums[xobjName] = xobjObjNum
-
-		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
-		if xobj != nil {
-			xobj.ID = "/" + xobjName
-			xobjects[xobjName] = *xobj
-		}
+	if family, ok := syntax.TextString(lookup(pdf, descriptor, "FontFamily")); ok {
+		fontInfo.Family = family
 	}
 
-	return xobjects, objNums
+	return fontInfo
 }
 
-// extractXObjectInfo extracts information from an XObject dictionary
-func extractXObjectInfo(xobjObjNum int, pdf *parse.PDF, verbose bool) *types.XObject {
-	xobjObj, err := pdf.GetObject(xobjObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get XObject %d: %v\n", xobjObjNum, err)
-		}
+// extractXObjectInfo extracts information from an XObject
+func extractXObjectInfo(xobj []byte, pdf *parse.PDF) *types.XObject {
+	subtype := lookupName(pdf, xobj, "Subtype")
+	if subtype == "" {
 		return nil
 	}
-
-	xobjStr := string(xobjObj)
 	xobject := &types.XObject{
-		Type: "XObject",
+		Type:    "XObject",
+		Subtype: subtype,
 	}
 
-	// Extract Subtype
-	subtype := extractDictValue(xobjStr, "/Subtype")
-	if subtype == "" {
-		return nil
-	}
-	xobject.Subtype = subtype
-
 	// For Image XObjects, extract dimensions
 	if subtype == "/Image" {
-		// Extract Width and Height
-		widthStr := extractDictValue(xobjStr, "/Width")
-		heightStr := extractDictValue(xobjStr, "/Height")
-		if widthStr != "" {
-			if w, err := strconv.ParseFloat(widthStr, 64); err == nil {
-				xobject.Width = w
-			}
-		}
-		if heightStr != "" {
-			if h, err := strconv.ParseFloat(heightStr, 64); err == nil {
-				xobject.Height = h
-			}
-		}
+		xobject.Width, _ = number(pdf, syntax.Get(xobj, "Width"))
+		xobject.Height, _ = number(pdf, syntax.Get(xobj, "Height"))
 	}
 
 	return xobject
 }
 
-// extractImageDataWithBinary extracts image with full binary data
-// This is a helper that calls extractImageData from images.go
-func extractImageDataWithBinary(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Image, error) {
-	return extractImageData(imageObjNum, pdf, verbose)
-}
-
-// extractFontDecoders extracts font decoders for text extraction from a Resources string
-func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]*FontDecoder {
+// extractFontDecoders extracts font decoders for text extraction from a
+// Resources dictionary, by resource name with its slash
+func extractFontDecoders(resources []byte, pdf *parse.PDF, verbose bool) map[string]*FontDecoder {
 	decoders := make(map[string]*FontDecoder)
-
-	if verbose {
-		fmt.Printf("Extracting font decoders from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
-	}
-
-	// Find /Font dictionary - handle both << >> and inline formats
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
-	}
-
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources for decoder extraction\n")
-		}
-		return decoders
-	}
-
-	fontDictStr := fontMatch[1]
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
-
-	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		decoder := extractFontDecoder(fontObjNum, fontName, pdf, verbose)
-		if decoder != nil {
-			decoders["/"+fontName] = decoder
-		}
+	for _, entry := range namedResources(resources, "Font", pdf) {
+		decoders["/"+entry.name] = extractFontDecoder(entry.value, entry.name, pdf, verbose)
 	}
-
 	return decoders
 }
 
-// extractFontDecoder creates a FontDecoder for a font object
-func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
-		}
-		return nil
-	}
-
-	fontStr := string(fontObj)
+// extractFontDecoder creates a FontDecoder for a font
+func extractFontDecoder(font []byte, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
 	decoder := NewFontDecoder(fontName)
+	subtype := lookupName(pdf, font, "Subtype")
 
-	// Extract and set base encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
-		// Check if encoding is a name (e.g., /WinAnsiEncoding) or a reference
-		if strings.HasPrefix(encoding, "/") {
-			decoder.SetBaseEncoding(encoding)
-		} else {
-			// Encoding might be a reference to an encoding dictionary
-			encodingObjNum, err := parseObjectRef(encoding)
-			if err == nil {
-				encodingObj, err := pdf.GetObject(encodingObjNum)
-				if err == nil {
-					encodingStr := string(encodingObj)
-
-					// Extract BaseEncoding from encoding dictionary
-					baseEnc := extractDictValue(encodingStr, "/BaseEncoding")
-					if baseEnc != "" {
-						decoder.SetBaseEncoding(baseEnc)
-					}
-
-					// Extract Differences array
-					diffsStr := extractDifferencesArray(encodingStr)
-					if diffsStr != "" {
-						decoder.ParseDifferencesArray(diffsStr)
-					}
-				}
-			}
+	encoding := lookup(pdf, font, "Encoding")
+	if name, ok := syntax.Name(encoding); ok {
+		decoder.SetBaseEncoding(name)
+	} else if subtype == "/Type0" {
+		// The encoding is a CMap, whose code space says how long codes are
+		if cmap, err := streamData(pdf, encoding); err == nil {
+			decoder.parseCodeSpace(string(cmap))
 		}
 	} else {
-		// Check for implicit encoding based on font type
-		subtype := extractDictValue(fontStr, "/Subtype")
-		baseFont := extractDictValue(fontStr, "/BaseFont")
-
-		// Standard 14 fonts use StandardEncoding by default
-		if isStandard14Font(baseFont) {
-			decoder.SetBaseEncoding("StandardEncoding")
-		} else if subtype == "/Type1" || subtype == "/TrueType" {
-			// Type1 and TrueType default to StandardEncoding
-			decoder.SetBaseEncoding("StandardEncoding")
+		// An encoding dictionary, or the font's built-in encoding: both start
+		// from StandardEncoding unless the dictionary says otherwise
+		decoder.SetBaseEncoding("StandardEncoding")
+		if base := lookupName(pdf, encoding, "BaseEncoding"); base != "" {
+			decoder.SetBaseEncoding(base)
 		}
-	}
-
-	// Handle Differences array in inline encoding
-	diffsStr := extractDifferencesArray(fontStr)
-	if diffsStr != "" {
-		decoder.ParseDifferencesArray(diffsStr)
-	}
-
-	// Extract ToUnicode CMap (highest priority for text decoding)
-	toUnicodeRef := extractDictValue(fontStr, "/ToUnicode")
-	if toUnicodeRef != "" {
-		toUnicodeObjNum, err := parseObjectRef(toUnicodeRef)
-		if err == nil {
-			cmapData := extractStreamData(toUnicodeObjNum, pdf, verbose)
-			if cmapData != "" {
-				decoder.ParseToUnicodeCMap(cmapData)
-				if verbose {
-					fmt.Printf("Parsed ToUnicode CMap for font %s with %d mappings\n", fontName, len(decoder.toUnicode))
-				}
-			}
+		if differences := lookup(pdf, encoding, "Differences"); differences != nil {
+			decoder.parseDifferences(differences, pdf)
 		}
 	}
-
-	// For Type0 (CID) fonts, extract the descendant font's encoding
-	subtype := extractDictValue(fontStr, "/Subtype")
 	if subtype == "/Type0" {
-		descendantFontsRef := extractDictValue(fontStr, "/DescendantFonts")
-		if descendantFontsRef != "" {
-			// Parse array of references
-			refs := parseObjectRefArray(descendantFontsRef)
-			if len(refs) > 0 {
-				descFontObjNum, err := parseObjectRef(refs[0])
-				if err == nil {
-					descFontObj, err := pdf.GetObject(descFontObjNum)
-					if err == nil {
-						// Check for CIDToGIDMap, which might give us Unicode mappings
-						descFontStr := string(descFontObj)
-						if verbose {
-							fmt.Printf("Type0 descendant font: %s\n", descFontStr[:min(200, len(descFontStr))])
-						}
-					}
-				}
-			}
-		}
-	}
-
-	return decoder
-}
-
-// extractDifferencesArray extracts the Differences array from an encoding dictionary or font
-func extractDifferencesArray(str string) string {
-	// Find /Differences array
-	diffIdx := strings.Index(str, "/Differences")
-	if diffIdx == -1 {
-		return ""
-	}
-
-	// Find the opening bracket
-	bracketStart := strings.Index(str[diffIdx:], "[")
-	if bracketStart == -1 {
-		return ""
-	}
-	bracketStart += diffIdx
-
-	// Find matching closing bracket
-	depth := 1
-	bracketEnd := bracketStart + 1
-	for bracketEnd < len(str) && depth > 0 {
-		if str[bracketEnd] == '[' {
-			depth++
-		} else if str[bracketEnd] == ']' {
-			depth--
-		}
-		bracketEnd++
-	}
-
-	if depth == 0 {
-		return str[bracketStart:bracketEnd]
-	}
-	return ""
-}
-
-// extractStreamData extracts and decompresses stream data from a stream object
-func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
-	obj, err := pdf.GetObject(objNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get stream object %d: %v\n", objNum, err)
-		}
-		return ""
-	}
-
-	objStr := string(obj)
-
-	// Check if this is a stream object
-	streamIdx := strings.Index(objStr, "stream")
-	if streamIdx == -1 {
-		return ""
-	}
-
-	// Check for FlateDecode filter
-	isCompressed := strings.Contains(objStr, "/FlateDecode")
-
-	// Extract stream data
-	dataStart := streamIdx + 6 // Skip "stream"
-	// Skip EOL after "stream"
-	if dataStart < len(objStr) && (objStr[dataStart] == '\r' || objStr[dataStart] == '\n') {
-		dataStart++
+		decoder.composite = true
+	} else if subtype != "" {
+		decoder.simple = true
 	}
-	if dataStart < len(objStr) && objStr[dataStart] == '\n' {
-		dataStart++
-	}
-
-	endstreamIdx := strings.Index(objStr[dataStart:], "endstream")
-	if endstreamIdx == -1 {
-		return ""
-	}
-
-	streamData := []byte(objStr[dataStart : dataStart+endstreamIdx])
 
-	// Decompress if needed
-	if isCompressed {
-		decompressed, err := parse.DecodeFlateDecode(streamData)
-		if err == nil {
-			return string(decompressed)
-		}
-		if verbose {
-			fmt.Printf("Warning: failed to decompress stream %d: %v\n", objNum, err)
+	// ToUnicode CMap (highest priority for text decoding)
+	if toUnicode := lookup(pdf, font, "ToUnicode"); toUnicode != nil {
+		cmap, err := streamData(pdf, toUnicode)
+		if err != nil {
+			if verbose {
+				fmt.Printf("Warning: failed to decode ToUnicode CMap of font %s: %v\n", fontName, err)
+			}
+		} else {
+			decoder.ParseToUnicodeCMap(string(cmap))
 		}
 	}
 
-	return string(streamData)
-}
-
-// isStandard14Font checks if a font is one of the standard 14 PDF fonts
-func isStandard14Font(baseFont string) bool {
-	baseFont = strings.TrimPrefix(baseFont, "/")
-	standard14 := []string{
-		"Courier", "Courier-Bold", "Courier-BoldOblique", "Courier-Oblique",
-		"Helvetica", "Helvetica-Bold", "Helvetica-BoldOblique", "Helvetica-Oblique",
-		"Times-Roman", "Times-Bold", "Times-BoldItalic", "Times-Italic",
-		"Symbol", "ZapfDingbats",
-	}
-	for _, name := range standard14 {
-		if baseFont == name {
-			return true
-		}
-	}
-	return false
+	return decoder
 }
diff --git a/core/syntax/text.go b/core/syntax/text.go
new file mode 100644
index 0000000..b5c9a54
--- /dev/null
+++ b/core/syntax/text.go
@@ -0,0 +1,80 @@
+package syntax
+
+import (
+	"unicode/utf16"
+)
+
+// pdfDocEncoding maps the codes whose character is not the one of Latin-1.
+var pdfDocEncoding = map[byte]rune{
+	0x18: '\u02d8', 0x19: '\u02c7', 0x1a: '\u02c6', 0x1b: '\u02d9',
+	0x1c: '\u02dd', 0x1d: '\u02db', 0x1e: '\u02da', 0x1f: '\u02dc',
+	0x80: '\u2022', 0x81: '\u2020', 0x82: '\u2021', 0x83: '\u2026',
+	0x84: '\u2014', 0x85: '\u2013', 0x86: '\u0192', 0x87: '\u2044',
+	0x88: '\u2039', 0x89: '\u203a', 0x8a: '\u2212', 0x8b: '\u2030',
+	0x8c: '\u201e', 0x8d: '\u201c', 0x8e: '\u201d', 0x8f: '\u2018',
+	0x90: '\u2019', 0x91: '\u201a', 0x92: '\u2122', 0x93: '\ufb01',
+	0x94: '\ufb02', 0x95: '\u0141', 0x96: '\u0152', 0x97: '\u0160',
+	0x98: '\u0178', 0x99: '\u017d', 0x9a: '\u0131', 0x9b: '\u0142',
+	0x9c: '\u0153', 0x9d: '\u0161', 0x9e: '\u017e', 0xa0: '\u20ac',
+}
+
+// TextString decodes a string that is text for people to read: UTF-16 or UTF-8
+// when it starts with a byte order mark, and PDFDocEncoding otherwise.
+func TextString(value []byte) (string, bool) {
+	s, ok := String(value)
+	if !ok {
+		return "", false
+	}
+	return DecodeText(s), true
+}
+
+// DecodeText decodes the bytes of a text string.
+func DecodeText(s []byte) string {
+	if len(s) >= 3 && s[0] == 0xef && s[1] == 0xbb && s[2] == 0xbf {
+		return string(s[3:])
+	}
+	if len(s) >= 2 && (s[0] == 0xfe && s[1] == 0xff || s[0] == 0xff && s[1] == 0xfe) {
+		high, low := 0, 1
+		if s[0] == 0xff {
+			high, low = 1, 0
+		}
+		var units []uint16
+		for i := 2; i+1 < len(s); i += 2 {
+			units = append(units, uint16(s[i+high])<<8|uint16(s[i+low]))
+		}
+		return string(utf16.Decode(units))
+	}
+	text := make([]rune, len(s))
+	for i, c := range s {
+		text[i] = rune(c)
+		if r, ok := pdfDocEncoding[c]; ok {
+			text[i] = r
+		}
+	}
+	return string(text)
+}
+
+// EncodeText encodes a text string: as it stands when it is plain ASCII, and as
+// UTF-16 with a byte order mark otherwise.
+func EncodeText(text string) []byte {
+	plain := true
+	for i := 0; i < len(text); i++ {
+		c := text[i]
+		if c >= 0x7f || c < ' ' && c != '\t' && c != '\n' && c != '\r' {
+			plain = false
+		}
+	}
+	if plain {
+		return []byte(text)
+	}
+	out := []byte{0xfe, 0xff}
+	for _, unit := range utf16.Encode([]rune(text)) {
+		out = append(out, byte(unit>>8), byte(unit))
+	}
+	return out
+}
+
+// FormatTextString writes a text string as a string literal.
+func FormatTextString(text string) []byte {
+	return FormatString(EncodeText(text))
+}
-- 
2.43.0


From b9bed669c15849b68fd8de34dcd4c0656dc66ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 13/28] fix: write bookmarks as valid outlines and keep the
 catalog's other entries

---
 core/write/bookmarks.go | 57 +++++++++++++++++-------------------
 core/write/writer.go    | 64 +++++------------------------------------
 2 files changed, 34 insertions(+), 87 deletions(-)

diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 12b3067..f20738c 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -2,8 +2,8 @@ package write
 
 import (
 	"fmt"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -16,8 +16,12 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		return 0, nil // No bookmarks
 	}
 
+	// The top-level items' parent is the Outlines dictionary: reserve its number
+	outlinesObjNum := w.nextObjNum
+	w.nextObjNum++
+
 	// Create outline items recursively
-	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, 0)
+	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, outlinesObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to create outline items: %w", err)
 	}
@@ -30,7 +34,7 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		"/Count": count,
 	}
 
-	outlinesObjNum := w.AddObject(w.formatDictionary(outlinesDict))
+	w.SetObject(outlinesObjNum, w.formatDictionary(outlinesDict))
 
 	// Store outlines reference for catalog update
 	w.outlinesRef = fmt.Sprintf("%d 0 R", outlinesObjNum)
@@ -50,17 +54,18 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 	for i, bookmark := range bookmarks {
 		// Create destination string
-		dest := ""
+		var dest interface{}
 		if bookmark.PageNumber > 0 {
 			pageObjNum, ok := pageObjNums[bookmark.PageNumber]
 			if ok {
 				// Create destination array: [pageObjNum /XYZ left top zoom]
 				// Default: top of page, fit to page width
-				dest = fmt.Sprintf("[%d 0 R /XYZ 0 792 null]", pageObjNum)
+				dest = rawValue(fmt.Sprintf("[%d 0 R /XYZ 0 792 null]", pageObjNum))
 			}
 		} else if bookmark.Destination != "" {
-			// Use provided destination string (should be in format like "[pageObjNum /XYZ ...]")
-			dest = bookmark.Destination
+			// Use provided destination string (in format like "[pageObjNum /XYZ ...]",
+			// or the name of a destination)
+			dest = destinationValue(bookmark.Destination)
 		}
 
 		// Create action for URI if provided
@@ -69,7 +74,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 			actionDict := Dictionary{
 				"/Type": "/Action",
 				"/S":    "/URI",
-				"/URI":  fmt.Sprintf("(%s)", escapePDFString(bookmark.URI)),
+				"/URI":  rawValue(syntax.FormatString([]byte(bookmark.URI))),
 			}
 			actionObjNum := w.AddObject(w.formatDictionary(actionDict))
 			actionRef = fmt.Sprintf("%d 0 R", actionObjNum)
@@ -93,10 +98,10 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": fmt.Sprintf("(%s)", escapePDFString(bookmark.Title)),
+			"/Title": rawValue(syntax.FormatTextString(bookmark.Title)),
 		}
 
-		if dest != "" {
+		if dest != nil {
 			itemDict["/Dest"] = dest
 		}
 		if actionRef != "" {
@@ -137,10 +142,8 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 		if i > 0 {
 			prevObj := w.objects[lastItemNum]
 			if prevObj != nil {
-				prevDictStr := string(prevObj.Content)
 				// Add /Next to previous item
-				updatedDict := addDictEntry(prevDictStr, "/Next", fmt.Sprintf("%d 0 R", itemObjNum))
-				w.objects[lastItemNum].Content = []byte(updatedDict)
+				prevObj.Content = syntax.Set(prevObj.Content, "Next", []byte(fmt.Sprintf("%d 0 R", itemObjNum)))
 			}
 		}
 
@@ -160,22 +163,16 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 	return firstItemNum, lastItemNum, totalCount, nil
 }
 
-// addDictEntry adds or updates a dictionary entry
-func addDictEntry(dictStr, key, value string) string {
-	// Simple approach: append before closing >>
-	// Find last >>
-	lastIdx := strings.LastIndex(dictStr, ">>")
-	if lastIdx == -1 {
-		return dictStr
-	}
-
-	// Check if key already exists
-	if strings.Contains(dictStr, key+" ") || strings.Contains(dictStr, key+"/") {
-		// Replace existing entry (simplified - just append new one, PDF readers will use last)
-		// For proper implementation, would need to parse and rebuild
-		return dictStr[:lastIdx] + fmt.Sprintf("%s %s ", key, value) + dictStr[lastIdx:]
+// destinationValue returns a destination as it's stored in an item: an array or
+// a name stands for itself, anything else is the text of a named destination
+func destinationValue(dest string) interface{} {
+	text := []byte(dest)
+	if end := syntax.ValueEnd(text, 0); len(dest) > 1 && end == len(text) {
+		_, isArray := syntax.Array(text)
+		_, isName := syntax.Name(text)
+		if isArray || isName {
+			return rawValue(text)
+		}
 	}
-
-	// Add new entry
-	return dictStr[:lastIdx] + fmt.Sprintf("%s %s ", key, value) + dictStr[lastIdx:]
+	return rawValue(syntax.FormatTextString(dest))
 }
diff --git a/core/write/writer.go b/core/write/writer.go
index 32a47a3..5081022 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -193,63 +193,8 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 		return
 	}
 
-	// Parse catalog dictionary if it's a Dictionary, otherwise parse as string
-	var catalogDict Dictionary
-	if catalogObj.Dict != nil {
-		catalogDict = catalogObj.Dict
-	} else {
-		// Try to parse from Content
-		catalogStr := string(catalogObj.Content)
-		// Simple parsing - find dictionary entries
-		// For now, rebuild the dictionary properly
-		// Extract existing entries and rebuild
-		if strings.Contains(catalogStr, "/Type") && strings.Contains(catalogStr, "/Pages") {
-			// Rebuild with /Outlines
-			catalogDict = Dictionary{
-				"/Type":  "/Catalog",
-				"/Pages": extractDictValueFromString(catalogStr, "/Pages"),
-			}
-			if pagesRef := extractDictValueFromString(catalogStr, "/Pages"); pagesRef != "" {
-				catalogDict["/Pages"] = pagesRef
-			}
-		} else {
-			// Fallback: just add /Outlines to string
-			catalogStr := string(catalogObj.Content)
-			if !strings.Contains(catalogStr, "/Outlines") {
-				lastIdx := strings.LastIndex(catalogStr, ">>")
-				if lastIdx > 0 {
-					catalogStr = catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:]
-					catalogObj.Content = []byte(catalogStr)
-				}
-			}
-			return
-		}
-	}
-
-	// Add /Outlines to dictionary
-	catalogDict["/Outlines"] = w.outlinesRef
-
-	// Update catalog object
-	catalogObj.Content = w.formatDictionary(catalogDict)
-	catalogObj.Dict = catalogDict
-}
-
-// extractDictValueFromString extracts a dictionary value from a string representation
-func extractDictValueFromString(dictStr, key string) string {
-	// Simple regex-like extraction
-	keyPattern := key + " "
-	idx := strings.Index(dictStr, keyPattern)
-	if idx == -1 {
-		return ""
-	}
-	start := idx + len(keyPattern)
-	// Find the value (could be a reference, array, etc.)
-	// For simplicity, extract until space or >
-	end := start
-	for end < len(dictStr) && dictStr[end] != ' ' && dictStr[end] != '>' && dictStr[end] != '\n' {
-		end++
-	}
-	return dictStr[start:end]
+	// Add /Outlines to the catalog, which keeps its other entries
+	catalogObj.Content = syntax.Set(catalogObj.Content, "Outlines", []byte(w.outlinesRef))
 }
 
 // SetEncryptRef sets the encrypt dictionary object reference
@@ -432,6 +377,9 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 	return buf.Bytes()
 }
 
+// rawValue is a dictionary value that is PDF syntax already
+type rawValue string
+
 // formatValue formats a value for PDF output
 func (w *PDFWriter) formatValue(value interface{}) string {
 	switch v := value.(type) {
@@ -452,6 +400,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		// Otherwise, it's a string - format as PDF string
 		// Note: escapePDFString in metadata.go returns escaped content without parentheses
 		return "(" + v + ")"
+	case rawValue:
+		return string(v)
 	case []byte:
 		return "<" + fmt.Sprintf("%X", v) + ">"
 	case []interface{}:
-- 
2.43.0


From df6c8cbaea95d6d47e783d11a9fb57884ff0a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 14/28] fix: write and read document metadata unchanged (text
 encodings, names, offsets, version)

---
 content/extract/metadata.go | 10 +++++++++-
 core/write/metadata.go      | 37 ++++++++++++++++++-------------------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index c96fdf6..6dcd0d5 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -25,8 +25,16 @@ func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.Docu
 		fmt.Printf("Warning: failed to count pages: %v\n", err)
 	}
 
-	// Extract from Info dictionary if available
+	// A later version in the catalog replaces the header's
 	trailer := pdf.Trailer()
+	if trailer != nil && trailer.RootRef != "" {
+		version := strings.TrimPrefix(lookupName(pdf, resolve(pdf, []byte(trailer.RootRef)), "Version"), "/")
+		if version > metadata.PDFVersion {
+			metadata.PDFVersion = version
+		}
+	}
+
+	// Extract from Info dictionary if available
 	if trailer != nil && trailer.InfoRef != "" {
 		// Parse object number from reference (e.g., "5 0 R")
 		infoObjNum, err := parseObjectRef(trailer.InfoRef)
diff --git a/core/write/metadata.go b/core/write/metadata.go
index 5d40597..87f2063 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -5,6 +5,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -19,43 +20,41 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	dict := Dictionary{}
 
 	if metadata.Title != "" {
-		dict["/Title"] = escapePDFStringForMetadata(metadata.Title)
+		dict["/Title"] = rawValue(syntax.FormatTextString(metadata.Title))
 	}
 	if metadata.Author != "" {
-		dict["/Author"] = escapePDFStringForMetadata(metadata.Author)
+		dict["/Author"] = rawValue(syntax.FormatTextString(metadata.Author))
 	}
 	if metadata.Subject != "" {
-		dict["/Subject"] = escapePDFStringForMetadata(metadata.Subject)
+		dict["/Subject"] = rawValue(syntax.FormatTextString(metadata.Subject))
 	}
 	if metadata.Keywords != "" {
-		dict["/Keywords"] = escapePDFStringForMetadata(metadata.Keywords)
+		dict["/Keywords"] = rawValue(syntax.FormatTextString(metadata.Keywords))
 	}
 	if metadata.Creator != "" {
-		dict["/Creator"] = escapePDFStringForMetadata(metadata.Creator)
+		dict["/Creator"] = rawValue(syntax.FormatTextString(metadata.Creator))
 	}
 	if metadata.Producer != "" {
-		dict["/Producer"] = escapePDFStringForMetadata(metadata.Producer)
+		dict["/Producer"] = rawValue(syntax.FormatTextString(metadata.Producer))
 	}
 	if metadata.CreationDate != "" {
-		dict["/CreationDate"] = formatPDFDate(metadata.CreationDate)
+		dict["/CreationDate"] = rawValue("(" + formatPDFDate(metadata.CreationDate) + ")")
 	}
 	if metadata.ModDate != "" {
-		dict["/ModDate"] = formatPDFDate(metadata.ModDate)
+		dict["/ModDate"] = rawValue("(" + formatPDFDate(metadata.ModDate) + ")")
 	}
 
 	// If no dates provided, set current time as ModDate
 	if metadata.ModDate == "" {
-		dict["/ModDate"] = formatPDFDate(time.Now().Format(time.RFC3339))
+		dict["/ModDate"] = rawValue("(" + formatPDFDate(time.Now().Format(time.RFC3339)) + ")")
 	}
 
 	// Add custom fields
 	for key, value := range metadata.Custom {
 		if key != "" && value != "" {
 			// Ensure key starts with /
-			if !strings.HasPrefix(key, "/") {
-				key = "/" + key
-			}
-			dict[key] = escapePDFStringForMetadata(value)
+			key = syntax.FormatName(strings.TrimPrefix(key, "/"))
+			dict[key] = rawValue(syntax.FormatTextString(value))
 		}
 	}
 
@@ -162,16 +161,16 @@ func formatPDFDate(dateStr string) string {
 
 	// Get timezone offset
 	_, offset := t.Zone()
+	sign := "+"
+	if offset < 0 {
+		sign = "-"
+		offset = -offset
+	}
 	offsetHours := offset / 3600
 	offsetMins := (offset % 3600) / 60
 
 	// Format timezone
-	var tzStr string
-	if offsetHours >= 0 {
-		tzStr = fmt.Sprintf("+%02d'%02d", offsetHours, offsetMins)
-	} else {
-		tzStr = fmt.Sprintf("-%02d'%02d", -offsetHours, -offsetMins)
-	}
+	tzStr := fmt.Sprintf("%s%02d'%02d", sign, offsetHours, offsetMins)
 
 	pdfDate := fmt.Sprintf("D:%04d%02d%02d%02d%02d%02d%s",
 		year, month, day, hour, min, sec, tzStr)
-- 
2.43.0


From f8726a8f6031c4c1253882c69992d36b83fcdfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 15/28] fix: read, fill, flatten and build forms through the
 object syntax, keeping every other object

---
 core/parse/api.go                |   5 +
 core/parse/update.go             | 190 ++++++++++++++++
 core/syntax/winansi.go           |  42 ++++
 core/write/page.go               |  22 +-
 forms/acroform/actions.go        |  97 ++-------
 forms/acroform/appearance.go     |  92 ++++----
 forms/acroform/document.go       | 157 ++++++++++++++
 forms/acroform/extract.go        |  58 ++---
 forms/acroform/fill_streams.go   | 169 ++-------------
 forms/acroform/flatten.go        | 109 +++-------
 forms/acroform/integration.go    |  13 +-
 forms/acroform/parser.go         | 362 ++++++++++++++-----------------
 forms/acroform/replace.go        | 216 ++++++++++--------
 forms/acroform/stream_finder.go  |  51 -----
 forms/acroform/stream_rebuild.go | 272 ++---------------------
 forms/acroform/writer.go         | 118 +++-------
 16 files changed, 879 insertions(+), 1094 deletions(-)
 create mode 100644 core/parse/update.go
 create mode 100644 core/syntax/winansi.go
 create mode 100644 forms/acroform/document.go
 delete mode 100644 forms/acroform/stream_finder.go

diff --git a/core/parse/api.go b/core/parse/api.go
index e28b5e3..b99b632 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -39,6 +39,7 @@ type ParseOptions struct {
 	Verbose     bool                    // Enable verbose logging
 	BytePerfect bool                    // Preserve exact bytes for reconstruction
 	Warnings    *types.WarningCollector // Optional warning collector for non-fatal issues
+	Encryption  *types.PDFEncryption    // Encryption that is unlocked already, used instead of Password
 }
 
 // PDF represents a parsed PDF document.
@@ -117,6 +118,10 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 
 // handleEncryption checks for encryption and validates password
 func (p *PDF) handleEncryption() error {
+	if p.opts.Encryption != nil {
+		p.encryption = p.opts.Encryption
+		return nil
+	}
 	_, enc, err := encrypt.DecryptPDF(p.raw, p.opts.Password, p.opts.Verbose)
 	switch {
 	case err == nil:
diff --git a/core/parse/update.go b/core/parse/update.go
new file mode 100644
index 0000000..75890a0
--- /dev/null
+++ b/core/parse/update.go
@@ -0,0 +1,190 @@
+package parse
+
+import (
+	"bytes"
+	"compress/zlib"
+	"fmt"
+	"regexp"
+	"sort"
+	"strconv"
+
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/syntax"
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// Update returns the document with a revision appended in which the given
+// objects have the given bodies (decrypted, without "obj" and "endobj").
+// Everything else stays as it is, and so does the encryption.
+func (p *PDF) Update(objects map[int][]byte) ([]byte, error) {
+	if len(objects) == 0 {
+		return append([]byte(nil), p.raw...), nil
+	}
+	inc := newIncrementalParser(p.raw, p.opts.Verbose)
+	startXRef, err := inc.findLastStartXRef()
+	if err != nil {
+		return nil, types.WrapError(types.ErrCodeMalformedPDF, "cannot append a revision", err)
+	}
+	trailer, isTable := newestTrailer(p.raw, startXRef)
+	if len(syntax.Get(trailer, "Root")) == 0 {
+		return nil, types.NewPDFError(types.ErrCodeMalformedPDF, "cannot append a revision: no trailer")
+	}
+
+	size := p.xref.Size
+	if n, ok := syntax.Int(syntax.Get(trailer, "Size")); ok && n > size {
+		size = n
+	}
+	nums := make([]int, 0, len(objects))
+	for num := range objects {
+		nums = append(nums, num)
+		if num >= size {
+			size = num + 1
+		}
+	}
+	for num := range p.xref.Objects {
+		if num >= size {
+			size = num + 1
+		}
+	}
+	sort.Ints(nums)
+
+	out := append([]byte(nil), p.raw...)
+	if out[len(out)-1] != '\n' {
+		out = append(out, '\n')
+	}
+	offsets := make(map[int]int, len(nums)+1)
+	gens := make(map[int]int, len(nums))
+	for _, num := range nums {
+		gens[num] = p.generation(num)
+		body, err := sealBody(syntax.Body(objects[num]), num, gens[num], p.encryption)
+		if err != nil {
+			return nil, types.WrapErrorf(types.ErrCodeWriteError, err, "failed to encrypt object %d", num)
+		}
+		offsets[num] = len(out)
+		out = append(out, fmt.Sprintf("%d %d obj\n", num, gens[num])...)
+		out = append(out, body...)
+		out = append(out, "\nendobj\n"...)
+	}
+
+	xrefOffset := len(out)
+	for _, key := range []string{"Type", "W", "Index", "Length", "Filter", "DecodeParms", "XRefStm", "DL", "F", "FFilter", "FDecodeParms"} {
+		trailer = syntax.Delete(trailer, key)
+	}
+	trailer = syntax.Set(trailer, "Prev", []byte(strconv.FormatInt(startXRef, 10)))
+	if isTable {
+		out = append(out, "xref\n"...)
+		for start := 0; start < len(nums); {
+			end := runEnd(nums, start)
+			out = append(out, fmt.Sprintf("%d %d\n", nums[start], end-start)...)
+			for ; start < end; start++ {
+				out = append(out, fmt.Sprintf("%010d %05d n\r\n", offsets[nums[start]], gens[nums[start]])...)
+			}
+		}
+		trailer = syntax.Set(trailer, "Size", []byte(strconv.Itoa(size)))
+		out = append(out, "trailer\n"...)
+		out = append(out, trailer...)
+	} else {
+		num := size
+		offsets[num] = xrefOffset
+		nums = append(nums, num)
+		var index, rows bytes.Buffer
+		for start := 0; start < len(nums); {
+			end := runEnd(nums, start)
+			fmt.Fprintf(&index, " %d %d", nums[start], end-start)
+			for ; start < end; start++ {
+				offset, gen := uint64(offsets[nums[start]]), gens[nums[start]]
+				rows.WriteByte(1)
+				for shift := 56; shift >= 0; shift -= 8 {
+					rows.WriteByte(byte(offset >> shift))
+				}
+				rows.Write([]byte{byte(gen >> 8), byte(gen)})
+			}
+		}
+		var data bytes.Buffer
+		zw := zlib.NewWriter(&data)
+		zw.Write(rows.Bytes())
+		zw.Close()
+		for _, entry := range []struct{ key, value string }{
+			{"Type", "/XRef"}, {"Size", strconv.Itoa(size + 1)}, {"W", "[1 8 2]"}, {"Index", "[" + index.String()[1:] + "]"},
+			{"Filter", "/FlateDecode"}, {"Length", strconv.Itoa(data.Len())},
+		} {
+			trailer = syntax.Set(trailer, entry.key, []byte(entry.value))
+		}
+		out = append(out, fmt.Sprintf("%d 0 obj\n", num)...)
+		out = append(out, trailer...)
+		out = append(out, "\nstream\n"...)
+		out = append(out, data.Bytes()...)
+		out = append(out, "\nendstream\nendobj"...)
+	}
+	out = append(out, fmt.Sprintf("\nstartxref\n%d\n%%%%EOF\n", xrefOffset)...)
+	return out, nil
+}
+
+// runEnd returns where the run of consecutive numbers that begins at start ends
+func runEnd(nums []int, start int) int {
+	end := start + 1
+	for end < len(nums) && nums[end] == nums[end-1]+1 {
+		end++
+	}
+	return end
+}
+
+// newestTrailer returns the trailer dictionary of the cross-reference section at
+// startXRef, and whether that section is a table.
+func newestTrailer(data []byte, startXRef int64) (dict []byte, isTable bool) {
+	if startXRef < 0 || startXRef >= int64(len(data)) {
+		return nil, false
+	}
+	section := data[startXRef:]
+	if !bytes.HasPrefix(section[syntax.SkipSpace(section, 0):], []byte("xref")) {
+		dict = dictAt(section, 0)
+		if len(syntax.Get(dict, "Root")) == 0 {
+			// Some writers put a trailer after the cross-reference stream
+			if end := bytes.Index(section, []byte("startxref")); end != -1 {
+				if keyword := bytes.LastIndex(section[:end], []byte("trailer")); keyword != -1 {
+					dict = dictAt(section, keyword)
+				}
+			}
+		}
+		return append([]byte(nil), dict...), false
+	}
+	keyword := bytes.Index(section, []byte("trailer"))
+	if keyword == -1 {
+		return nil, true
+	}
+	return append([]byte(nil), dictAt(section, keyword)...), true
+}
+
+var objectHeader = regexp.MustCompile(`^(\d+)\s+(\d+)\s+obj`)
+
+// generation returns the generation of an object: 0 for a packed or a new one
+func (p *PDF) generation(num int) int {
+	if ref, ok := p.xref.Objects[num]; !ok || ref.InStream {
+		return 0
+	}
+	obj, err := p.GetObject(num)
+	if err != nil {
+		return 0
+	}
+	if m := objectHeader.FindSubmatch(obj); m != nil {
+		gen, _ := strconv.Atoi(string(m[2]))
+		return gen
+	}
+	return 0
+}
+
+// sealBody encrypts the strings and the stream data of an object's body
+func sealBody(body []byte, num, gen int, enc *types.PDFEncryption) ([]byte, error) {
+	if enc == nil {
+		return body, nil
+	}
+	if dict, data, ok := syntax.Stream(body); ok {
+		sealed, err := encrypt.EncryptStream(data, dict, num, gen, enc)
+		if err != nil {
+			return nil, err
+		}
+		head := syntax.Set(append([]byte(nil), dict...), "Length", []byte(strconv.Itoa(len(sealed))))
+		body = append(append(append(head, "\nstream\n"...), sealed...), "\nendstream"...)
+	}
+	return encrypt.EncryptStrings(body, num, gen, enc)
+}
diff --git a/core/syntax/winansi.go b/core/syntax/winansi.go
new file mode 100644
index 0000000..fb5ba0b
--- /dev/null
+++ b/core/syntax/winansi.go
@@ -0,0 +1,42 @@
+package syntax
+
+import "unicode/utf8"
+
+// winAnsi maps the characters whose WinAnsiEncoding code is not their Latin-1 code.
+var winAnsi = map[rune]byte{
+	'\u20ac': 0x80, '\u201a': 0x82, '\u0192': 0x83, '\u201e': 0x84,
+	'\u2026': 0x85, '\u2020': 0x86, '\u2021': 0x87, '\u02c6': 0x88,
+	'\u2030': 0x89, '\u0160': 0x8a, '\u2039': 0x8b, '\u0152': 0x8c,
+	'\u017d': 0x8e, '\u2018': 0x91, '\u2019': 0x92, '\u201c': 0x93,
+	'\u201d': 0x94, '\u2022': 0x95, '\u2013': 0x96, '\u2014': 0x97,
+	'\u02dc': 0x98, '\u2122': 0x99, '\u0161': 0x9a, '\u203a': 0x9b,
+	'\u0153': 0x9c, '\u017e': 0x9e, '\u0178': 0x9f,
+}
+
+// WinAnsiCode returns the code a character has in WinAnsiEncoding
+func WinAnsiCode(char rune) (code byte, ok bool) {
+	if char < 0x80 || char >= 0xa0 && char <= 0xff {
+		return byte(char), true
+	}
+	code, ok = winAnsi[char]
+	return code, ok
+}
+
+// EncodeWinAnsi encodes text for a font with WinAnsiEncoding. A character the
+// encoding lacks becomes a question mark; bytes that are not UTF-8 are taken to
+// be codes and stay.
+func EncodeWinAnsi(text string) []byte {
+	out := make([]byte, 0, len(text))
+	for i := 0; i < len(text); {
+		char, size := utf8.DecodeRuneInString(text[i:])
+		if char == utf8.RuneError && size == 1 {
+			out = append(out, text[i])
+		} else if code, ok := WinAnsiCode(char); ok {
+			out = append(out, code)
+		} else {
+			out = append(out, '?')
+		}
+		i += size
+	}
+	return out
+}
diff --git a/core/write/page.go b/core/write/page.go
index b1e192d..84c306b 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -4,6 +4,7 @@ package write
 import (
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -214,12 +215,29 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
 
 	// Create Catalog
-	b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
-	b.writer.SetRoot(b.catalogObjNum)
+	if err := b.SetCatalogEntry("Pages", fmt.Sprintf("%d 0 R", b.pagesObjNum)); err != nil {
+		return nil, err
+	}
 
 	return b.writer.Bytes()
 }
 
+// SetCatalogEntry sets an entry of the document catalog to the given PDF syntax.
+// The catalog is the writer's root, and is created if there is none.
+func (b *SimplePDFBuilder) SetCatalogEntry(key, value string) error {
+	fmt.Sscanf(b.writer.rootRef, "%d 0 R", &b.catalogObjNum)
+	if b.catalogObjNum == 0 {
+		b.catalogObjNum = b.writer.AddObject([]byte("<</Type/Catalog>>"))
+		b.writer.SetRoot(b.catalogObjNum)
+	}
+	catalog, err := b.writer.GetObject(b.catalogObjNum)
+	if err != nil {
+		return fmt.Errorf("failed to get catalog: %w", err)
+	}
+	b.writer.SetObject(b.catalogObjNum, syntax.Set(append([]byte(nil), catalog...), key, []byte(value)))
+	return nil
+}
+
 // SetBookmarks sets bookmarks for the document
 // pageObjNums will be automatically built from the pages if nil
 func (b *SimplePDFBuilder) SetBookmarks(bookmarks []types.Bookmark) error {
diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index ed89333..1594ded 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -3,9 +3,8 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -37,15 +36,17 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
+	if _, _, ok := syntax.Entries(fieldData); !ok {
+		return fmt.Errorf("field dictionary not found")
+	}
 
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", syntax.FormatString([]byte(action.URI)))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", syntax.FormatTextString(action.JavaScript))
 	case ActionTypeGoTo:
 		if action.Destination != "" {
 			actionDict = fmt.Sprintf("<< /Type /Action /S /GoTo /D %s >>", action.Destination)
@@ -63,30 +64,8 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("unsupported action type: %s", action.Type)
 	}
 
-	// Add /AA (additional actions) or /A (action) to field
 	// /A is for the main action, /AA is for event-specific actions
-	actionEntry := fmt.Sprintf("/A %s", actionDict)
-
-	// Check if /A or /AA already exists
-	if strings.Contains(fieldStr, "/A ") || strings.Contains(fieldStr, "/AA ") {
-		// Replace existing action (simplified - would need better parsing)
-		// For now, just add /A
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	} else {
-		// Add action before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	}
-
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	w.SetObject(fieldObjNum, addEntry(fieldData, "A", actionDict))
 	return nil
 }
 
@@ -98,15 +77,17 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
+	if _, _, ok := syntax.Entries(fieldData); !ok {
+		return fmt.Errorf("field dictionary not found")
+	}
 
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", syntax.FormatString([]byte(action.URI)))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", syntax.FormatTextString(action.JavaScript))
 	default:
 		return fmt.Errorf("unsupported action type for mouse event: %s", action.Type)
 	}
@@ -125,52 +106,16 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 		return fmt.Errorf("unsupported event: %s", event)
 	}
 
-	// Add to /AA dictionary
-	aaEntry := fmt.Sprintf("/AA << /%s %s >>", actionKey, actionDict)
-
-	// Check if /AA exists
-	if strings.Contains(fieldStr, "/AA ") {
-		// Update existing /AA (simplified)
-		aaPattern := regexp.MustCompile(`/AA\s*<<[^>]*>>`)
-		fieldStr = aaPattern.ReplaceAllString(fieldStr, aaEntry)
-	} else {
-		// Add /AA before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
+	// Add to /AA dictionary, which keeps the actions for other events
+	actions := syntax.Get(fieldData, "AA")
+	if objNum, _, ok := syntax.Ref(actions); ok {
+		if actions, err = w.GetObject(objNum); err != nil {
+			return fmt.Errorf("failed to get additional actions: %w", err)
 		}
-		fieldStr = fieldStr[:dictEnd] + aaEntry + " " + fieldStr[dictEnd:]
 	}
-
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
-	return nil
-}
-
-// escapeActionString escapes strings for action dictionaries
-func escapeActionString(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
+	if _, _, ok := syntax.Entries(actions); !ok {
+		actions = []byte("<< >>")
 	}
-	return result.String()
+	w.SetObject(fieldObjNum, addEntry(fieldData, "AA", string(addEntry(actions, actionKey, actionDict))))
+	return nil
 }
diff --git a/forms/acroform/appearance.go b/forms/acroform/appearance.go
index 66cf7f4..dc8e9b5 100644
--- a/forms/acroform/appearance.go
+++ b/forms/acroform/appearance.go
@@ -3,9 +3,10 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strings"
+	"unicode/utf8"
 
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -79,16 +80,14 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 
 	// Set up text
 	content.WriteString("BT\n") // Begin text
-	content.WriteString(fmt.Sprintf("/%s %.2f Tf\n", fontName, fontSize))
+	content.WriteString(fmt.Sprintf("%s %.2f Tf\n", syntax.FormatName(fontName), fontSize))
 	content.WriteString("0 0 0 rg\n") // Black text
 
 	// Position text (bottom-left of field)
 	textY := height * 0.2 // Leave some margin
 	content.WriteString(fmt.Sprintf("0 %.2f Td\n", textY))
 
-	// Escape text for PDF
-	escapedText := escapeAppearanceText(text)
-	content.WriteString(fmt.Sprintf("(%s) Tj\n", escapedText))
+	content.WriteString(showText(text))
 
 	content.WriteString("ET\n") // End text
 	content.WriteString("Q\n")  // Restore state
@@ -101,7 +100,7 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
 		"/Resources": write.Dictionary{
 			"/Font": write.Dictionary{
-				fontName: fmt.Sprintf("%d 0 R", 0), // Font reference (would need actual font)
+				syntax.FormatName(fontName): standardFont(fontName),
 			},
 		},
 	}
@@ -129,14 +128,14 @@ func (ab *AppearanceBuilder) CreateButtonAppearance(label string, width, height,
 
 	// Draw text (centered)
 	content.WriteString("BT\n") // Begin text
-	content.WriteString("/Helvetica 12 Tf\n")
+	content.WriteString(fmt.Sprintf("/Helvetica %.2f Tf\n", fontSize))
 	content.WriteString("0 0 0 rg\n") // Black text
 
 	// Center text
-	textX := (width - float64(len(label))*6) / 2 // Rough centering
-	textY := (height - 12) / 2
+	textX := (width - float64(utf8.RuneCountInString(label))*fontSize/2) / 2 // Rough centering
+	textY := (height - fontSize) / 2
 	content.WriteString(fmt.Sprintf("%.2f %.2f Td\n", textX, textY))
-	content.WriteString(fmt.Sprintf("(%s) Tj\n", escapeAppearanceText(label)))
+	content.WriteString(showText(label))
 	content.WriteString("ET\n") // End text
 
 	content.WriteString("Q\n") // Restore state
@@ -147,38 +146,30 @@ func (ab *AppearanceBuilder) CreateButtonAppearance(label string, width, height,
 		"/Subtype": "/Form",
 		"/BBox":    []interface{}{0, 0, width, height},
 		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
+		"/Resources": write.Dictionary{
+			"/Font": write.Dictionary{
+				"/Helvetica": standardFont("Helvetica"),
+			},
+		},
 	}
 
 	appearanceNum := ab.writer.AddStreamObject(appearanceDict, []byte(content.String()), true)
 	return appearanceNum, nil
 }
 
-// escapeAppearanceText escapes text for appearance streams
-func escapeAppearanceText(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
+// showText returns the operator that shows text in a font with WinAnsiEncoding
+func showText(text string) string {
+	return string(syntax.FormatString(syntax.EncodeWinAnsi(text))) + " Tj\n"
+}
+
+// standardFont returns a font dictionary for one of the standard fonts
+func standardFont(name string) write.Dictionary {
+	return write.Dictionary{
+		"/Type":     "/Font",
+		"/Subtype":  "/Type1",
+		"/BaseFont": syntax.FormatName(name),
+		"/Encoding": "/WinAnsiEncoding",
 	}
-	return result.String()
 }
 
 // AddAppearanceToField adds an appearance stream to a field object
@@ -189,26 +180,21 @@ func AddAppearanceToField(fieldObjNum, appearanceNum int, w *write.PDFWriter) er
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
-	// Add or update /AP dictionary
-	apEntry := fmt.Sprintf("/AP << /N %d 0 R >>", appearanceNum)
+	if _, _, ok := syntax.Entries(fieldData); !ok {
+		return fmt.Errorf("field dictionary not found")
+	}
 
-	// Check if /AP already exists
-	if strings.Contains(fieldStr, "/AP") {
-		// Replace existing /AP
-		apPattern := regexp.MustCompile(`/AP\s*<<[^>]*>>`)
-		fieldStr = apPattern.ReplaceAllString(fieldStr, apEntry)
-	} else {
-		// Add /AP before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
+	// Add or update the normal appearance; others stay
+	appearances := syntax.Get(fieldData, "AP")
+	if objNum, _, ok := syntax.Ref(appearances); ok {
+		if appearances, err = w.GetObject(objNum); err != nil {
+			return fmt.Errorf("failed to get appearances: %w", err)
 		}
-		fieldStr = fieldStr[:dictEnd] + apEntry + " " + fieldStr[dictEnd:]
 	}
-
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	if _, _, ok := syntax.Entries(appearances); !ok {
+		appearances = []byte("<< >>")
+	}
+	appearances = addEntry(appearances, "N", fmt.Sprintf("%d 0 R", appearanceNum))
+	w.SetObject(fieldObjNum, addEntry(fieldData, "AP", string(appearances)))
 	return nil
 }
diff --git a/forms/acroform/document.go b/forms/acroform/document.go
new file mode 100644
index 0000000..2c508a6
--- /dev/null
+++ b/forms/acroform/document.go
@@ -0,0 +1,157 @@
+package acroform
+
+import (
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// document reads the objects of a PDF that has a form
+type document struct {
+	pdf *parse.PDF
+}
+
+// openDocument opens a PDF whose encryption, if any, is unlocked already
+func openDocument(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*document, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Encryption: encryptInfo,
+		Verbose:    verbose,
+	})
+	if err != nil {
+		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
+	}
+	return &document{pdf: pdf}, nil
+}
+
+// openWithPassword opens a PDF
+func openWithPassword(pdfBytes, password []byte, verbose bool) (*document, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
+	}
+	return &document{pdf: pdf}, nil
+}
+
+// object returns the body of an object, or nil
+func (d *document) object(objNum int) []byte {
+	obj, err := d.pdf.GetObject(objNum)
+	if err != nil {
+		return nil
+	}
+	return syntax.Body(obj)
+}
+
+// resolve follows references until it reaches a value
+func (d *document) resolve(value []byte) []byte {
+	for i := 0; i < 32; i++ {
+		objNum, _, ok := syntax.Ref(value)
+		if !ok {
+			break
+		}
+		value = d.object(objNum)
+	}
+	return value
+}
+
+// lookup returns a dictionary entry's value with references resolved
+func (d *document) lookup(dict []byte, key string) []byte {
+	return d.resolve(syntax.Get(dict, key))
+}
+
+// array returns the elements of a value that is an array
+func (d *document) array(value []byte) [][]byte {
+	elements, _ := syntax.Array(d.resolve(value))
+	return elements
+}
+
+// text returns a text string, or the text of a stream that stands for one
+func (d *document) text(value []byte) (string, bool) {
+	value = d.resolve(value)
+	if dict, data, ok := syntax.Stream(value); ok {
+		decoded, err := parse.DecodeStream(dict, data, d.object)
+		if err != nil {
+			return "", false
+		}
+		return syntax.DecodeText(decoded), true
+	}
+	return syntax.TextString(value)
+}
+
+// value returns a field value: text and names as strings, arrays as lists
+func (d *document) value(raw []byte) interface{} {
+	raw = d.resolve(raw)
+	if len(raw) == 0 || string(raw) == "null" {
+		return nil
+	}
+	if text, ok := d.text(raw); ok {
+		return text
+	}
+	if name, ok := syntax.Name(raw); ok {
+		return name
+	}
+	if elements, ok := syntax.Array(raw); ok {
+		list := make([]interface{}, 0, len(elements))
+		for _, element := range elements {
+			list = append(list, d.value(element))
+		}
+		return list
+	}
+	if _, _, ok := syntax.Entries(raw); ok {
+		return nil
+	}
+	return string(raw)
+}
+
+// root returns the catalog's object number, or 0
+func (d *document) root() int {
+	trailer := d.pdf.Trailer()
+	if trailer == nil {
+		return 0
+	}
+	objNum, _, _ := syntax.Ref([]byte(trailer.RootRef))
+	return objNum
+}
+
+// acroForm returns the interactive form dictionary, or nil
+func (d *document) acroForm() []byte {
+	return d.lookup(d.object(d.root()), "AcroForm")
+}
+
+// widgetPages tells on which page (from 0) each annotation is
+func (d *document) widgetPages() map[int]int {
+	pages := make(map[int]int)
+	count := 0
+	seen := make(map[int]bool)
+	var walk func(objNum int)
+	walk = func(objNum int) {
+		if seen[objNum] {
+			return
+		}
+		seen[objNum] = true
+		node := d.object(objNum)
+		kids := d.lookup(node, "Kids")
+		if name, _ := syntax.Name(d.lookup(node, "Type")); name == "Pages" || name != "Page" && len(kids) > 0 {
+			for _, kid := range d.array(kids) {
+				if kidNum, _, ok := syntax.Ref(kid); ok {
+					walk(kidNum)
+				}
+			}
+			return
+		}
+		for _, annot := range d.array(syntax.Get(node, "Annots")) {
+			if annotNum, _, ok := syntax.Ref(annot); ok {
+				if _, found := pages[annotNum]; !found {
+					pages[annotNum] = count
+				}
+			}
+		}
+		count++
+	}
+	if pagesNum, _, ok := syntax.Ref(syntax.Get(d.object(d.root()), "Pages")); ok {
+		walk(pagesNum)
+	}
+	return pages
+}
diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index 4107412..9985f5e 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -2,28 +2,21 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractAcroForm extracts AcroForm structure from a PDF
 // This is the main entry point for AcroForm extraction
 func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*AcroForm, error) {
-	// Handle encryption
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		var err error
-		_, encryptInfo, err = encrypt.DecryptPDF(pdfBytes, password, verbose)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt PDF: %w", err)
-		}
+	doc, err := openWithPassword(pdfBytes, password, verbose)
+	if err != nil {
+		return nil, err
 	}
 
 	// Parse AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := doc.parseAcroForm(verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
@@ -45,20 +38,11 @@ func ExtractFormSchema(pdfBytes []byte, password []byte, verbose bool) (*types.F
 func (af *AcroForm) GetFieldValues() map[string]interface{} {
 	values := make(map[string]interface{})
 
-	for _, field := range af.Fields {
-		fieldName := field.GetFullName()
-		if fieldName != "" && field.V != nil {
-			values[fieldName] = field.V
-		}
-
-		// Also get values from child fields
-		for _, kid := range field.Kids {
-			kidName := kid.GetFullName()
-			if kidName != "" && kid.V != nil {
-				values[kidName] = kid.V
-			}
+	walk(af.Fields, func(field *Field) {
+		if name := field.GetFullName(); name != "" && field.isTerminal() && field.V != nil {
+			values[name] = field.V
 		}
-	}
+	})
 
 	return values
 }
@@ -67,6 +51,9 @@ func (af *AcroForm) GetFieldValues() map[string]interface{} {
 func (f *Field) GetFullName() string {
 	if f.Parent != nil {
 		parentName := f.Parent.GetFullName()
+		if f.T == "" {
+			return parentName
+		}
 		if parentName != "" {
 			return parentName + "." + f.T
 		}
@@ -74,19 +61,20 @@ func (f *Field) GetFullName() string {
 	return f.T
 }
 
-// FindFieldByName finds a field by its name
+// FindFieldByName finds a field by its full name or, where no field has that
+// full name, by its partial name
 func (af *AcroForm) FindFieldByName(name string) *Field {
-	for _, field := range af.Fields {
-		if field.GetFullName() == name || field.T == name {
-			return field
+	var full, partial *Field
+	walk(af.Fields, func(field *Field) {
+		if full == nil && field.GetFullName() == name {
+			full = field
 		}
-
-		// Search in kids
-		for _, kid := range field.Kids {
-			if kid.GetFullName() == name || kid.T == name {
-				return kid
-			}
+		if partial == nil && field.T == name {
+			partial = field
 		}
+	})
+	if full != nil {
+		return full
 	}
-	return nil
+	return partial
 }
diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index 154e026..3f86a6b 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -2,12 +2,9 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
-	"regexp"
-	"strings"
+	"sort"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -17,38 +14,26 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 		return nil, fmt.Errorf("PDF bytes are empty")
 	}
 
-	// Parse PDF to get encryption info and object locations
-	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: password,
-		Verbose:  verbose,
-	})
+	doc, err := openWithPassword(pdfBytes, password, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse PDF: %w", err)
-	}
-
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
+		return nil, err
 	}
 
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := doc.parseAcroForm(verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	if acroForm == nil {
-		return nil, fmt.Errorf("AcroForm is nil")
+	names := make([]string, 0, len(formData))
+	for fieldName := range formData {
+		names = append(names, fieldName)
 	}
+	sort.Strings(names)
 
-	// Get object locations from parser
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Track updates per stream
-	streamUpdates := make(map[int][]StreamObjectUpdate)
-
-	for fieldName, value := range formData {
+	changed := make(map[int][]byte)
+	for _, fieldName := range names {
+		value := formData[fieldName]
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			if verbose {
@@ -56,142 +41,16 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 			}
 			continue
 		}
-
-		// Check if field is in an object stream by accessing xref
-		// We need to get the object reference from the parser's internal xref
-		// For now, try to get the object and check if it's accessible
-		objData, objErr := pdf.GetObject(field.ObjectNum)
-		if objErr != nil {
+		if err := doc.fill(field, value, changed); err != nil {
 			if verbose {
-				fmt.Printf("Warning: Cannot access object %d: %v, trying direct replacement\n", field.ObjectNum, objErr)
-			}
-			// Try direct replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil && verbose {
-				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
+				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, err)
 			}
 			continue
 		}
-
-		// Check if object appears to be from a stream (no "obj" header)
-		checkLen := 50
-		if len(objData) < checkLen {
-			checkLen = len(objData)
-		}
-		isInStream := !bytes.Contains(objData[:checkLen], []byte(fmt.Sprintf("%d 0 obj", field.ObjectNum)))
-
-		if isInStream {
-			// Field is in an object stream - prepare update
-			updatedContent, err := updateFieldContent(objData, field, value)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to update field content: %v\n", err)
-				}
-				continue
-			}
-
-			// Find which stream contains this object
-			streamObjNum := findStreamForObject(pdfBytes, field.ObjectNum, encryptInfo, verbose)
-			if streamObjNum > 0 {
-				// Get stream index from xref
-				startXRef := findStartXRef(pdfBytes)
-				var streamIndex int
-				if startXRef >= 0 {
-					xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-					if err == nil {
-						if entry, ok := xrefResult.ObjectStreams[field.ObjectNum]; ok {
-							streamIndex = entry.IndexInStream
-						}
-					}
-				}
-
-				// Add to stream updates
-				streamUpdates[streamObjNum] = append(streamUpdates[streamObjNum], StreamObjectUpdate{
-					ObjNum:     field.ObjectNum,
-					Index:      streamIndex,
-					NewContent: updatedContent,
-				})
-
-				if verbose {
-					fmt.Printf("Prepared update for field '%s' (obj %d) in stream %d at index %d\n",
-						fieldName, field.ObjectNum, streamObjNum, streamIndex)
-				}
-			} else {
-				if verbose {
-					fmt.Printf("Warning: Could not find stream for object %d, using direct replacement\n", field.ObjectNum)
-				}
-				// Fall back to direct replacement
-				var fillErr error
-				result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-				if fillErr != nil && verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-			}
-		} else {
-			// Direct object - use simple replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-				continue
-			}
-		}
-
 		if verbose {
 			fmt.Printf("Filled field '%s' with value '%v'\n", fieldName, value)
 		}
 	}
 
-	// Rebuild object streams that were modified
-	for streamObjNum, updates := range streamUpdates {
-		if verbose {
-			fmt.Printf("Rebuilding object stream %d with %d updates\n", streamObjNum, len(updates))
-		}
-
-		var rebuildErr error
-		result, rebuildErr = RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
-		if rebuildErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to rebuild object stream %d: %v\n", streamObjNum, rebuildErr)
-			}
-			// Continue with other streams
-			continue
-		}
-
-		if verbose {
-			fmt.Printf("Successfully rebuilt object stream %d\n", streamObjNum)
-		}
-	}
-
-	if len(result) == 0 {
-		return nil, fmt.Errorf("result PDF is empty after filling")
-	}
-
-	return result, nil
-}
-
-// updateFieldContent updates field content with new value
-func updateFieldContent(fieldData []byte, field *Field, value interface{}) ([]byte, error) {
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
-		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
-	}
-
-	return []byte(newFieldStr), nil
+	return doc.pdf.Update(changed)
 }
diff --git a/forms/acroform/flatten.go b/forms/acroform/flatten.go
index c0dbde9..47b5103 100644
--- a/forms/acroform/flatten.go
+++ b/forms/acroform/flatten.go
@@ -3,64 +3,42 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
-	"github.com/benedoc-inc/pdfer/core/write"
 )
 
 // FlattenForm converts form fields to static content (removes interactivity)
 // This creates a new PDF with form fields rendered as regular text/graphics
 func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error) {
-	// Parse PDF
-	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: password,
-		Verbose:  verbose,
-	})
+	doc, err := openWithPassword(pdfBytes, password, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse PDF: %w", err)
-	}
-
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
+		return nil, err
 	}
 
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := doc.parseAcroForm(verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	// Create new PDF writer
-	w := write.NewPDFWriter()
-	w.SetVersion(pdf.Version())
-
-	// For each field, we need to:
-	// 1. Get the field's appearance stream (if it exists)
-	// 2. Add it to the page content
-	// 3. Remove the field from AcroForm
-
-	// This is a simplified version - full flattening would:
+	// This is a simplified version - full flattening would also:
 	// - Extract appearance streams (/AP dictionary)
 	// - Convert them to page content
-	// - Remove /AcroForm from catalog
 	// - Remove field annotations from pages
 
 	if verbose {
 		fmt.Printf("Flattening %d form fields\n", len(acroForm.Fields))
 	}
 
-	// For now, return a copy with AcroForm reference removed from catalog
-	// Full implementation would require page-level annotation removal
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Remove AcroForm reference from catalog (simplified)
-	catalogPattern := regexp.MustCompile(`/AcroForm\s+\d+\s+\d+\s+R`)
-	result = catalogPattern.ReplaceAll(result, []byte(""))
+	// Remove the AcroForm from the catalog
+	root := doc.root()
+	catalog := append([]byte(nil), doc.object(root)...)
+	result, err := doc.pdf.Update(map[int][]byte{root: syntax.Delete(catalog, "AcroForm")})
+	if err != nil {
+		return nil, err
+	}
 
 	if verbose {
 		fmt.Println("Form flattened (AcroForm reference removed)")
@@ -71,17 +49,13 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 
 // FlattenField converts a single field to static content
 func FlattenField(pdfBytes []byte, field *Field, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	doc, err := openDocument(pdfBytes, encryptInfo, false)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, err
 	}
 
-	fieldStr := string(fieldData)
-
 	// Check for appearance stream (/AP)
-	apPattern := regexp.MustCompile(`/AP\s*<<[^>]*>>`)
-	if !apPattern.MatchString(fieldStr) {
+	if len(doc.lookup(doc.object(field.ObjectNum), "AP")) == 0 {
 		// No appearance stream - field value should be rendered as text
 		// This would require creating content stream with field value
 		if verbose {
@@ -98,45 +72,30 @@ func FlattenField(pdfBytes []byte, field *Field, encryptInfo *types.PDFEncryptio
 	return pdfBytes, nil
 }
 
-// GetFieldAppearance gets the appearance stream for a field
+// GetFieldAppearance gets the appearance stream for a field: what its (first)
+// widget shows, decoded
 func GetFieldAppearance(field *Field, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	doc, err := openDocument(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, err
 	}
-
-	fieldStr := string(fieldData)
-
-	// Find /AP dictionary
-	apPattern := regexp.MustCompile(`/AP\s*<<([^>]*)>>`)
-	apMatch := apPattern.FindStringSubmatch(fieldStr)
-	if apMatch == nil {
+	widget := doc.object(doc.widgets(field)[0])
+	appearances := doc.lookup(widget, "AP")
+	if len(appearances) == 0 {
 		return nil, fmt.Errorf("no appearance stream found for field")
 	}
-
-	// Find /N (normal appearance) stream reference
-	nPattern := regexp.MustCompile(`/N\s+(\d+)\s+(\d+)\s+R`)
-	nMatch := nPattern.FindStringSubmatch(apMatch[1])
-	if nMatch == nil {
-		return nil, fmt.Errorf("no normal appearance stream found")
-	}
-
-	appearanceObjNum, _ := strconv.Atoi(nMatch[1])
-	_ = nMatch[2] // Generation number (usually 0)
-
-	// Get appearance stream
-	appearanceData, err := parse.GetObject(pdfBytes, appearanceObjNum, encryptInfo, false)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get appearance stream: %w", err)
+	normal := doc.lookup(appearances, "N")
+	if !syntax.IsStream(normal) {
+		// One appearance per state
+		state, ok := syntax.Name(doc.lookup(widget, "AS"))
+		if !ok {
+			state = "Off"
+		}
+		normal = doc.lookup(normal, state)
 	}
-
-	// Extract stream data (if it's a stream object)
-	streamPattern := regexp.MustCompile(`stream\s*\n(.*?)\nendstream`)
-	streamMatch := streamPattern.FindStringSubmatch(string(appearanceData))
-	if streamMatch != nil {
-		return []byte(streamMatch[1]), nil
+	dict, data, ok := syntax.Stream(normal)
+	if !ok {
+		return nil, fmt.Errorf("no normal appearance stream found")
 	}
-
-	return appearanceData, nil
+	return parse.DecodeStream(dict, data, doc.object)
 }
diff --git a/forms/acroform/integration.go b/forms/acroform/integration.go
index d7d1608..7054f9a 100644
--- a/forms/acroform/integration.go
+++ b/forms/acroform/integration.go
@@ -4,8 +4,8 @@ package acroform
 import (
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
 // FormBuilder integrates AcroForm creation with SimplePDFBuilder
@@ -57,15 +57,10 @@ func (fb *FormBuilder) BuildForm() (int, error) {
 		return 0, fmt.Errorf("failed to build AcroForm: %w", err)
 	}
 
-	// Get pages object number
-	pagesObjNum := fb.builder.PagesObjNum()
-
 	// Update catalog to include AcroForm
-	w := fb.builder.Writer()
-	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>",
-		pagesObjNum, acroFormNum)
-	catalogNum := w.AddObject([]byte(catalogDict))
-	w.SetRoot(catalogNum)
+	if err := fb.builder.SetCatalogEntry("AcroForm", fmt.Sprintf("%d 0 R", acroFormNum)); err != nil {
+		return 0, fmt.Errorf("failed to add AcroForm to catalog: %w", err)
+	}
 
 	return acroFormNum, nil
 }
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 6d764ae..9c34399 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -3,14 +3,22 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
-	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+// Field flags (ISO 32000-1 tables 221, 226 and 230)
+const (
+	flagReadOnly   = 1 << 0
+	flagRequired   = 1 << 1
+	flagRadio      = 1 << 15
+	flagPushbutton = 1 << 16
+	flagCombo      = 1 << 17
+	flagEdit       = 1 << 18
+)
+
 // AcroForm represents an AcroForm dictionary structure
 type AcroForm struct {
 	Fields          []*Field
@@ -45,243 +53,190 @@ type Field struct {
 
 // ParseAcroForm extracts AcroForm structure from a PDF
 func ParseAcroForm(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	// Find AcroForm reference in catalog
-	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: []byte(""),
-		Verbose:  verbose,
-	})
+	doc, err := openDocument(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
+		return nil, err
 	}
-
-	// Search for /AcroForm in the PDF
-	// We'll parse directly from bytes for now
-	_ = pdf // May use later for better catalog access
-	return parseAcroFormFromBytes(pdfBytes, encryptInfo, verbose)
+	return doc.parseAcroForm(verbose)
 }
 
-// parseAcroFormFromBytes finds and parses AcroForm by searching PDF bytes
-func parseAcroFormFromBytes(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		if acroFormInlinePattern.FindStringIndex(pdfStr) == nil {
-			return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
-		}
-		// Inline AcroForm - would need more complex parsing
-		return nil, types.NewPDFError(types.ErrCodeUnsupportedPDF, "inline AcroForm not yet supported")
+// parseAcroForm reads the form of a document
+func (d *document) parseAcroForm(verbose bool) (*AcroForm, error) {
+	dict := d.acroForm()
+	if _, _, ok := syntax.Entries(dict); !ok {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
 	}
 
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidObject, "invalid AcroForm object number", err)
+	acroForm := &AcroForm{
+		Fields:          make([]*Field, 0),
+		NeedAppearances: string(d.lookup(dict, "NeedAppearances")) == "true",
+		XFA:             len(syntax.Get(dict, "XFA")) > 0,
 	}
-
-	// Get AcroForm object
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapErrorf(types.ErrCodeObjectNotFound, err, "failed to get AcroForm object %d", acroFormObjNum)
+	if acroForm.XFA && verbose {
+		fmt.Println("Found XFA in AcroForm (hybrid form)")
 	}
 
-	acroForm := &AcroForm{
-		Fields: make([]*Field, 0),
+	fields, ok := syntax.Array(d.lookup(dict, "Fields"))
+	if !ok {
+		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
 	}
-
-	// Parse AcroForm dictionary
-	if err := parseAcroFormDict(acroFormData, acroForm, pdfBytes, encryptInfo, verbose); err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse AcroForm dictionary", err)
+	p := &fieldParser{document: d, form: acroForm, pages: d.widgetPages(), seen: make(map[int]bool), verbose: verbose}
+	defaults := &Field{Q: p.integer(dict, "Q")}
+	defaults.DA, _ = d.text(syntax.Get(dict, "DA"))
+	for _, ref := range fields {
+		if field := p.parse(ref, nil, defaults); field != nil {
+			acroForm.Fields = append(acroForm.Fields, field)
+		}
 	}
-
 	return acroForm, nil
 }
 
-// parseAcroFormDict parses the AcroForm dictionary
-func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) error {
-	dataStr := string(data)
-
-	// Check for XFA (hybrid form)
-	if strings.Contains(dataStr, "/XFA") {
-		acroForm.XFA = true
-		if verbose {
-			fmt.Println("Found XFA in AcroForm (hybrid form)")
-		}
-	}
-
-	// Find Fields array
-	fieldsPattern := regexp.MustCompile(`/Fields\s*\[([^\]]*)\]`)
-	fieldsMatch := fieldsPattern.FindStringSubmatch(dataStr)
-	if fieldsMatch == nil {
-		return types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
-	}
-
-	fieldsStr := fieldsMatch[1]
-	if verbose {
-		fmt.Printf("Found Fields array: %s\n", fieldsStr)
-	}
-
-	// Extract field references
-	fieldRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-	fieldRefs := fieldRefPattern.FindAllStringSubmatch(fieldsStr, -1)
-
-	for _, ref := range fieldRefs {
-		objNum, _ := strconv.Atoi(ref[1])
-		genNum, _ := strconv.Atoi(ref[2])
-
-		field, err := parseField(pdfBytes, objNum, genNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to parse field %d: %v\n", objNum, err)
-			}
-			continue
-		}
-
-		acroForm.Fields = append(acroForm.Fields, field)
-	}
+// fieldParser reads the fields of a form
+type fieldParser struct {
+	*document
+	form    *AcroForm
+	pages   map[int]int  // annotation -> page it is on
+	seen    map[int]bool // fields read so far
+	verbose bool
+}
 
-	return nil
+// integer returns a dictionary entry that is an integer, or 0
+func (p *fieldParser) integer(dict []byte, key string) int {
+	n, _ := syntax.Int(p.lookup(dict, key))
+	return n
 }
 
-// parseField parses a single field dictionary
-func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
-	fieldData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeFieldNotFound, "failed to get field object", err)
+// parse reads the field that ref refers to and those below it. What the field
+// does not say itself it takes from the one above.
+func (p *fieldParser) parse(ref []byte, parent, above *Field) *Field {
+	objNum, genNum, ok := syntax.Ref(ref)
+	if !ok || p.seen[objNum] {
+		return nil
+	}
+	p.seen[objNum] = true
+	dict := p.object(objNum)
+	if _, _, ok := syntax.Entries(dict); !ok {
+		if p.verbose {
+			fmt.Printf("Warning: Failed to parse field %d\n", objNum)
+		}
+		return nil
 	}
 
 	field := &Field{
 		ObjectNum:  objNum,
 		Generation: genNum,
+		Parent:     parent,
 		Kids:       make([]*Field, 0),
+		FT:         above.FT,
+		Ff:         above.Ff,
+		V:          above.V,
+		DV:         above.DV,
+		DA:         above.DA,
+		Q:          above.Q,
+		MaxLen:     above.MaxLen,
+		Opt:        above.Opt,
+		TI:         p.integer(dict, "TI"),
+		Page:       p.pages[objNum],
 	}
+	field.T, _ = p.text(syntax.Get(dict, "T"))
+	field.TU, _ = p.text(syntax.Get(dict, "TU"))
+	field.TM, _ = p.text(syntax.Get(dict, "TM"))
 
-	dataStr := string(fieldData)
-
-	// Extract field type (FT)
-	if ftMatch := regexp.MustCompile(`/FT\s*/(\w+)`).FindStringSubmatch(dataStr); ftMatch != nil {
-		field.FT = ftMatch[1]
+	// Inheritable attributes
+	if name, ok := syntax.Name(p.lookup(dict, "FT")); ok {
+		field.FT = name
 	}
-
-	// Extract field name (T)
-	if tMatch := regexp.MustCompile(`/T\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	} else if tMatch := regexp.MustCompile(`/T\s*/(\w+)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
+	if flags, ok := syntax.Int(p.lookup(dict, "Ff")); ok {
+		field.Ff = flags
 	}
-
-	// Extract alternate name (TU)
-	if tuMatch := regexp.MustCompile(`/TU\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tuMatch != nil {
-		field.TU = tuMatch[1]
+	if value := p.value(syntax.Get(dict, "V")); value != nil {
+		field.V = value
 	}
-
-	// Extract field flags (Ff)
-	if ffMatch := regexp.MustCompile(`/Ff\s+(\d+)`).FindStringSubmatch(dataStr); ffMatch != nil {
-		field.Ff, _ = strconv.Atoi(ffMatch[1])
+	if value := p.value(syntax.Get(dict, "DV")); value != nil {
+		field.DV = value
 	}
-
-	// Extract value (V)
-	if vMatch := regexp.MustCompile(`/V\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*/(\w+)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); vMatch != nil {
-		// Array value (for choice fields)
-		field.V = parseArray(vMatch[1])
+	if text, ok := p.text(syntax.Get(dict, "DA")); ok {
+		field.DA = text
 	}
-
-	// Extract default value (DV)
-	if dvMatch := regexp.MustCompile(`/DV\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); dvMatch != nil {
-		field.DV = dvMatch[1]
+	if q, ok := syntax.Int(p.lookup(dict, "Q")); ok {
+		field.Q = q
 	}
-
-	// Extract maximum length (MaxLen)
-	if maxLenMatch := regexp.MustCompile(`/MaxLen\s+(\d+)`).FindStringSubmatch(dataStr); maxLenMatch != nil {
-		field.MaxLen, _ = strconv.Atoi(maxLenMatch[1])
+	if maxLen, ok := syntax.Int(p.lookup(dict, "MaxLen")); ok {
+		field.MaxLen = maxLen
 	}
-
-	// Extract options (Opt) - for choice fields
-	if optMatch := regexp.MustCompile(`/Opt\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); optMatch != nil {
-		field.Opt = parseOptions(optMatch[1])
+	if options, ok := syntax.Array(p.lookup(dict, "Opt")); ok {
+		field.Opt = p.options(options)
 	}
-
-	// Extract rectangle (Rect) - field position
-	if rectMatch := regexp.MustCompile(`/Rect\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); rectMatch != nil {
-		field.Rect = parseRect(rectMatch[1])
+	for _, index := range p.array(syntax.Get(dict, "I")) {
+		if n, ok := syntax.Int(p.resolve(index)); ok {
+			field.I = append(field.I, n)
+		}
+	}
+	for _, coordinate := range p.array(syntax.Get(dict, "Rect")) {
+		if n, err := strconv.ParseFloat(string(p.resolve(coordinate)), 64); err == nil {
+			field.Rect = append(field.Rect, n)
+		}
+	}
+	if field.FT == "Sig" && (parent == nil || field.T != "") {
+		p.form.SignatureFields = append(p.form.SignatureFields, objNum)
 	}
 
-	// Extract kids (child fields)
-	if kidsMatch := regexp.MustCompile(`/Kids\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); kidsMatch != nil {
-		kidsStr := kidsMatch[1]
-		kidRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-		kidRefs := kidRefPattern.FindAllStringSubmatch(kidsStr, -1)
-
-		for _, ref := range kidRefs {
-			kidObjNum, _ := strconv.Atoi(ref[1])
-			kidGenNum, _ := strconv.Atoi(ref[2])
-
-			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to parse kid field %d: %v\n", kidObjNum, err)
-				}
-				continue
-			}
-			kidField.Parent = field
+	for _, kid := range p.array(syntax.Get(dict, "Kids")) {
+		if kidField := p.parse(kid, field, field); kidField != nil {
 			field.Kids = append(field.Kids, kidField)
 		}
 	}
-
-	return field, nil
+	if _, placed := p.pages[objNum]; !placed && len(field.Kids) > 0 {
+		field.Page = field.Kids[0].Page
+	}
+	return field
 }
 
-// parseArray parses a PDF array string
-func parseArray(arrStr string) []interface{} {
-	items := make([]interface{}, 0)
-	// Simple parsing - split by spaces and handle strings
-	parts := strings.Fields(arrStr)
-	for _, part := range parts {
-		if strings.HasPrefix(part, "(") && strings.HasSuffix(part, ")") {
-			items = append(items, part[1:len(part)-1])
-		} else {
-			items = append(items, part)
+// options reads choice field options: strings, or pairs of value and display
+func (p *fieldParser) options(elements [][]byte) []interface{} {
+	options := make([]interface{}, 0, len(elements))
+	for _, element := range elements {
+		if option := p.value(element); option != nil {
+			options = append(options, option)
 		}
 	}
-	return items
+	return options
 }
 
-// parseOptions parses choice field options
-func parseOptions(optStr string) []interface{} {
-	// Options can be array of strings or array of [value, display] pairs
-	options := make([]interface{}, 0)
-
-	// Try to parse as array of strings first
-	if strings.Contains(optStr, "(") {
-		// Extract string values
-		strPattern := regexp.MustCompile(`\(([^)]*)\)`)
-		matches := strPattern.FindAllStringSubmatch(optStr, -1)
-		for _, match := range matches {
-			options = append(options, match[1])
+// isWidget tells a kid that shows its parent from one that is a field itself
+func (f *Field) isWidget() bool {
+	return f.Parent != nil && f.T == ""
+}
+
+// isTerminal tells a field that has a value of its own from a group of fields
+func (f *Field) isTerminal() bool {
+	for _, kid := range f.Kids {
+		if !kid.isWidget() {
+			return false
 		}
 	}
-
-	return options
+	return !f.isWidget()
 }
 
-// parseRect parses a rectangle array [llx lly urx ury]
-func parseRect(rectStr string) []float64 {
-	parts := strings.Fields(rectStr)
-	rect := make([]float64, 0, 4)
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
-			rect = append(rect, val)
+// walk visits fields and the fields below them, but no mere widgets
+func walk(fields []*Field, visit func(*Field)) {
+	for _, field := range fields {
+		if field.isWidget() {
+			continue
 		}
+		visit(field)
+		walk(field.Kids, visit)
+	}
+}
+
+// optionValues returns what an option is stored and displayed as
+func optionValues(option interface{}) (value, label string) {
+	if pair, ok := option.([]interface{}); ok && len(pair) > 0 {
+		value = fmt.Sprintf("%v", pair[0])
+		return value, fmt.Sprintf("%v", pair[len(pair)-1])
 	}
-	return rect
+	value = fmt.Sprintf("%v", option)
+	return value, value
 }
 
 // ToFormSchema converts AcroForm to FormSchema
@@ -294,12 +249,15 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 		Rules:     make([]types.Rule, 0),
 	}
 
-	for _, field := range af.Fields {
+	walk(af.Fields, func(field *Field) {
+		if !field.isTerminal() {
+			return
+		}
 		question := field.ToQuestion()
 		if question != nil {
 			schema.Questions = append(schema.Questions, *question)
 		}
-	}
+	})
 
 	return schema
 }
@@ -308,7 +266,7 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 func (f *Field) ToQuestion() *types.Question {
 	question := &types.Question{
 		ID:         fmt.Sprintf("field_%d", f.ObjectNum),
-		Name:       f.T,
+		Name:       f.GetFullName(),
 		Label:      f.TU,
 		Type:       mapFieldTypeWithFlags(f.FT, f.Ff),
 		Required:   (f.Ff & 0x2) != 0, // Required flag
@@ -330,10 +288,10 @@ func (f *Field) ToQuestion() *types.Question {
 	if len(f.Opt) > 0 {
 		question.Options = make([]types.Option, 0, len(f.Opt))
 		for i, opt := range f.Opt {
-			optStr := fmt.Sprintf("%v", opt)
+			value, label := optionValues(opt)
 			question.Options = append(question.Options, types.Option{
-				Value: optStr,
-				Label: optStr,
+				Value: value,
+				Label: label,
 			})
 			// Check if this option is selected
 			if f.I != nil {
@@ -391,15 +349,13 @@ func mapFieldTypeWithFlags(ft string, flags int) types.ResponseType {
 	case "Tx":
 		return types.ResponseTypeText
 	case "Btn":
-		// Checkbox flag is 0x8000 (bit 15)
-		if (flags & 0x8000) != 0 {
-			return types.ResponseTypeCheckbox
-		}
-		// Radio button flag is 0x10000 (bit 16)
-		if (flags & 0x10000) != 0 {
+		switch {
+		case flags&flagPushbutton != 0:
+			return types.ResponseTypeButton
+		case flags&flagRadio != 0:
 			return types.ResponseTypeRadio
 		}
-		return types.ResponseTypeButton
+		return types.ResponseTypeCheckbox
 	case "Ch":
 		// Combo box flag is 0x20000 (bit 17)
 		if (flags & 0x20000) != 0 {
diff --git a/forms/acroform/replace.go b/forms/acroform/replace.go
index 136ce0f..cc4f46c 100644
--- a/forms/acroform/replace.go
+++ b/forms/acroform/replace.go
@@ -3,92 +3,124 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
-	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ReplaceFieldObject replaces a field object in a PDF
 func ReplaceFieldObject(pdfBytes []byte, objNum, genNum int, newContent []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the object
-	objPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum))
-	objMatch := objPattern.FindStringIndex(pdfStr)
-	if objMatch == nil {
-		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
-	}
-
-	objStart := objMatch[0]
-	objHeaderEnd := objStart + objMatch[1] - objMatch[0]
-
-	// Find endobj - search from after the header
-	searchStart := objHeaderEnd
-	endObjPattern := regexp.MustCompile(`endobj`)
-	endObjMatches := endObjPattern.FindAllStringIndex(pdfStr[searchStart:], -1)
-	if len(endObjMatches) == 0 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+	doc, err := openDocument(pdfBytes, encryptInfo, verbose)
+	if err != nil {
+		return nil, err
 	}
-
-	// Find the first endobj after our object start
-	endObjPos := searchStart + endObjMatches[0][1]
-
-	// Reconstruct: before object + header + new content + endobj + after object
-	before := pdfBytes[:objHeaderEnd]
-	after := pdfBytes[endObjPos:]
-
-	result := make([]byte, 0, len(before)+len(newContent)+len(after)+20)
-	result = append(result, before...)
-	result = append(result, []byte("\n")...)
-	result = append(result, newContent...)
-	result = append(result, []byte("\nendobj\n")...)
-	result = append(result, after...)
-
-	if verbose {
-		oldSize := endObjPos - objHeaderEnd
-		fmt.Printf("Replaced object %d %d: %d bytes -> %d bytes\n", objNum, genNum, oldSize, len(newContent))
+	if !doc.pdf.HasObject(objNum) {
+		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
 	}
-
-	return result, nil
+	return doc.pdf.Update(map[int][]byte{objNum: syntax.Body(newContent)})
 }
 
 // FillFieldValue fills a field with a value by replacing the object
 func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get current field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	doc, err := openDocument(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, err
 	}
+	changed := make(map[int][]byte)
+	if err := doc.fill(field, value, changed); err != nil {
+		return nil, err
+	}
+	return doc.pdf.Update(changed)
+}
 
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
+// fill puts the objects that giving a field a value changes into changed
+func (d *document) fill(field *Field, value interface{}, changed map[int][]byte) error {
+	dict := d.object(field.ObjectNum)
+	if _, _, ok := syntax.Entries(dict); !ok {
+		return fmt.Errorf("failed to get field object %d", field.ObjectNum)
+	}
+	dict = append([]byte(nil), dict...)
+	if field.FT != "Btn" {
+		dict = syntax.Set(dict, "V", formatFieldValue(value, field.FT))
+		dict = syntax.Delete(dict, "I") // the selection goes with the value
+		changed[field.ObjectNum] = dict
+		return nil
+	}
 
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		// Replace existing value
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
+	widgets := d.widgets(field)
+	state := ""
+	if on, ok := value.(bool); ok {
+		state = "Off"
+		if on {
+			state = d.onState(widgets)
+		}
 	} else {
-		// Add new /V entry before the closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
+		state = fieldText(value)
+	}
+	changed[field.ObjectNum] = syntax.Set(dict, "V", []byte(syntax.FormatName(state)))
+	for _, widget := range widgets {
+		states := d.states(widget)
+		if len(states) == 0 {
+			continue // drawn by the viewer
+		}
+		shown := "Off"
+		for _, name := range states {
+			if name == state {
+				shown = state
+			}
+		}
+		body, ok := changed[widget]
+		if !ok {
+			body = append([]byte(nil), d.object(widget)...)
 		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+		changed[widget] = syntax.Set(body, "AS", []byte(syntax.FormatName(shown)))
 	}
+	return nil
+}
 
-	// Replace the object
-	return ReplaceFieldObject(pdfBytes, field.ObjectNum, field.Generation, []byte(newFieldStr), encryptInfo, verbose)
+// widgets returns the annotations that show a field: its unnamed kids, or itself
+func (d *document) widgets(field *Field) []int {
+	var widgets []int
+	for _, kid := range field.Kids {
+		if kid.isWidget() {
+			widgets = append(widgets, kid.ObjectNum)
+		}
+	}
+	if len(widgets) == 0 {
+		widgets = []int{field.ObjectNum}
+	}
+	return widgets
 }
 
-// formatFieldValue formats a value for PDF based on field type
-func formatFieldValue(value interface{}, fieldType string) string {
+// states returns the names of a widget's normal appearances
+func (d *document) states(widget int) []string {
+	normal := d.lookup(d.lookup(d.object(widget), "AP"), "N")
+	if syntax.IsStream(normal) {
+		return nil
+	}
+	entries, _, _ := syntax.Entries(normal)
+	states := make([]string, 0, len(entries))
+	for _, entry := range entries {
+		states = append(states, entry.Key)
+	}
+	return states
+}
+
+// onState returns the state that stands for a button being on
+func (d *document) onState(widgets []int) string {
+	for _, widget := range widgets {
+		for _, state := range d.states(widget) {
+			if state != "Off" {
+				return state
+			}
+		}
+	}
+	return "Yes"
+}
+
+// fieldText returns a value as text
+func fieldText(value interface{}) string {
 	switch v := value.(type) {
 	case string:
 		return v
@@ -97,45 +129,43 @@ func formatFieldValue(value interface{}, fieldType string) string {
 	case float64:
 		return strconv.FormatFloat(v, 'f', -1, 64)
 	case bool:
-		if fieldType == "Btn" {
-			// For checkboxes, use appearance state name
-			if v {
-				return "Yes" // Or field-specific appearance name
-			}
-			return "Off"
-		}
 		return strconv.FormatBool(v)
 	default:
 		return fmt.Sprintf("%v", v)
 	}
 }
 
-// escapeFieldValue escapes special characters in field values
-func escapeFieldValue(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
+// formatFieldValue formats a value for PDF based on field type
+func formatFieldValue(value interface{}, fieldType string) []byte {
+	if fieldType == "Btn" {
+		state := fieldText(value)
+		if on, ok := value.(bool); ok {
+			state = "Off"
+			if on {
+				state = "Yes" // Or field-specific appearance name
 			}
 		}
+		return []byte(syntax.FormatName(state))
+	}
+	var items []interface{}
+	switch list := value.(type) {
+	case []interface{}:
+		items = list
+	case []string:
+		for _, item := range list {
+			items = append(items, item)
+		}
+	default:
+		return syntax.FormatTextString(fieldText(value))
+	}
+	out := []byte("[")
+	for i, item := range items {
+		if i > 0 {
+			out = append(out, ' ')
+		}
+		out = append(out, syntax.FormatTextString(fieldText(item))...)
 	}
-	return result.String()
+	return append(out, ']')
 }
 
 // FillFormFields fills multiple fields in a PDF
diff --git a/forms/acroform/stream_finder.go b/forms/acroform/stream_finder.go
deleted file mode 100644
index 3736498..0000000
--- a/forms/acroform/stream_finder.go
+++ /dev/null
@@ -1,51 +0,0 @@
-// Package acroform provides utilities to find object streams
-package acroform
-
-import (
-	"regexp"
-	"strconv"
-
-	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
-)
-
-// findStreamForObject finds which object stream contains a given object
-func findStreamForObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) int {
-	// Parse xref to find object stream info
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef < 0 {
-		return 0
-	}
-
-	xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-	if err != nil {
-		return 0
-	}
-
-	// Check if object is in a stream
-	if entry, ok := xrefResult.ObjectStreams[objNum]; ok {
-		return entry.StreamObjNum
-	}
-
-	return 0
-}
-
-// findStartXRef finds the startxref position
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end
-	searchLen := 1024
-	if len(pdfBytes) < searchLen {
-		searchLen = len(pdfBytes)
-	}
-
-	tail := pdfBytes[len(pdfBytes)-searchLen:]
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(string(match[1]), 10, 64)
-		if err == nil {
-			return val
-		}
-	}
-	return -1
-}
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index c07a6c8..e20660e 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -2,15 +2,10 @@
 package acroform
 
 import (
-	"bytes"
-	"compress/zlib"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -21,262 +16,23 @@ type StreamObjectUpdate struct {
 	NewContent []byte
 }
 
-// RebuildObjectStream rebuilds an object stream with updated objects
+// RebuildObjectStream replaces objects that an object stream holds. The new
+// objects are written in a revision of their own, where they stand alone.
 func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObjectUpdate, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get the object stream
-	streamObjData, err := parse.GetObject(pdfBytes, streamObjNum, encryptInfo, false)
+	doc, err := openDocument(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get object stream %d: %w", streamObjNum, err)
+		return nil, err
 	}
-
-	// Find the object stream in the PDF
-	pdfStr := string(pdfBytes)
-	streamPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum))
-	streamMatch := streamPattern.FindStringIndex(pdfStr)
-	if streamMatch == nil {
-		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
-	}
-
-	streamStart := streamMatch[0]
-
-	// Parse the object stream to extract all objects
-	streamDict, streamData, err := parseObjectStream(streamObjData, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse object stream: %w", err)
-	}
-
-	// Create update map
-	updateMap := make(map[int]*StreamObjectUpdate)
-	for i := range updates {
-		updateMap[updates[i].ObjNum] = &updates[i]
-	}
-
-	// Rebuild stream with updates
-	newStreamData, newHeader, err := rebuildStreamContent(streamDict, streamData, updateMap, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to rebuild stream content: %w", err)
-	}
-
-	// Compress the new stream
-	var compressed bytes.Buffer
-	zw := zlib.NewWriter(&compressed)
-	zw.Write(newStreamData)
-	zw.Close()
-
-	// Update /First to point to new header length
-	newFirst := len(newHeader)
-	streamDict["/First"] = newFirst
-	streamDict["/Length"] = len(compressed.Bytes())
-
-	// Rebuild object stream dictionary
-	newDictStr := formatStreamDict(streamDict)
-
-	// Find stream boundaries in PDF
-	dictEnd := bytes.Index(pdfBytes[streamStart:], []byte("stream"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	dictEnd += streamStart
-
-	// Find endstream
-	endstreamPos := bytes.Index(pdfBytes[dictEnd:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-	streamEnd := dictEnd + endstreamPos + 9
-
-	// Reconstruct PDF
-	before := pdfBytes[:streamStart]
-	after := pdfBytes[streamEnd:]
-
-	result := make([]byte, 0, len(before)+len(newDictStr)+len(compressed.Bytes())+len(after)+50)
-	result = append(result, before...)
-	result = append(result, []byte(fmt.Sprintf("%d 0 obj\n", streamObjNum))...)
-	result = append(result, []byte(newDictStr)...)
-	result = append(result, []byte("\nstream\n")...)
-	result = append(result, compressed.Bytes()...)
-	result = append(result, []byte("\nendstream\nendobj\n")...)
-	result = append(result, after...)
-
-	if verbose {
-		fmt.Printf("Rebuilt object stream %d: %d objects, %d bytes compressed\n", streamObjNum, streamDict["/N"], len(compressed.Bytes()))
-	}
-
-	return result, nil
-}
-
-// parseObjectStream parses an object stream to extract dictionary and decompressed data
-func parseObjectStream(streamObjData []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]interface{}, []byte, error) {
-	// Find dictionary
-	dictStart := bytes.Index(streamObjData, []byte("<<"))
-	if dictStart == -1 {
-		return nil, nil, fmt.Errorf("dictionary not found")
-	}
-
-	dictEnd := bytes.Index(streamObjData[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, nil, fmt.Errorf("dictionary end not found")
-	}
-	dictEnd += dictStart + 2
-
-	dictStr := string(streamObjData[dictStart:dictEnd])
-	dict := parseStreamDict(dictStr)
-
-	// Find stream data
-	streamKeyword := bytes.Index(streamObjData[dictEnd:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, nil, fmt.Errorf("stream keyword not found")
-	}
-
-	streamDataStart := dictEnd + streamKeyword + 6
-	// Skip EOL
-	if streamDataStart < len(streamObjData) && (streamObjData[streamDataStart] == '\r' || streamObjData[streamDataStart] == '\n') {
-		streamDataStart++
-	}
-	if streamDataStart < len(streamObjData) && streamObjData[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Get stream length
-	length, ok := dict["/Length"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/Length not found or invalid")
-	}
-
-	streamData := streamObjData[streamDataStart : streamDataStart+length]
-
-	// Decrypt if needed
-	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, 0, 0, encryptInfo)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to decrypt stream: %w", err)
-		}
-		streamData = decrypted
-	}
-
-	// Decompress
-	var decompressed bytes.Buffer
-	zr, err := zlib.NewReader(bytes.NewReader(streamData))
-	if err != nil {
-		return nil, nil, fmt.Errorf("failed to create zlib reader: %w", err)
+	if !doc.pdf.HasObject(streamObjNum) {
+		return nil, fmt.Errorf("failed to get object stream %d: not found", streamObjNum)
 	}
-	decompressed.ReadFrom(zr)
-	zr.Close()
-
-	return dict, decompressed.Bytes(), nil
-}
-
-// parseStreamDict parses a stream dictionary string
-func parseStreamDict(dictStr string) map[string]interface{} {
-	dict := make(map[string]interface{})
-
-	// Extract /N
-	if nMatch := regexp.MustCompile(`/N\s+(\d+)`).FindStringSubmatch(dictStr); nMatch != nil {
-		if n, err := strconv.Atoi(nMatch[1]); err == nil {
-			dict["/N"] = n
-		}
-	}
-
-	// Extract /First
-	if firstMatch := regexp.MustCompile(`/First\s+(\d+)`).FindStringSubmatch(dictStr); firstMatch != nil {
-		if first, err := strconv.Atoi(firstMatch[1]); err == nil {
-			dict["/First"] = first
-		}
-	}
-
-	// Extract /Length
-	if lenMatch := regexp.MustCompile(`/Length\s+(\d+)`).FindStringSubmatch(dictStr); lenMatch != nil {
-		if length, err := strconv.Atoi(lenMatch[1]); err == nil {
-			dict["/Length"] = length
+	changed := make(map[int][]byte)
+	for _, update := range updates {
+		loc, err := parse.FindObjectLocation(pdfBytes, update.ObjNum, false)
+		if err != nil || loc.IsDirect || loc.StreamObjNum != streamObjNum {
+			continue // not in this stream
 		}
+		changed[update.ObjNum] = syntax.Body(update.NewContent)
 	}
-
-	return dict
-}
-
-// rebuildStreamContent rebuilds stream content with updated objects
-func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte, updates map[int]*StreamObjectUpdate, verbose bool) ([]byte, []byte, error) {
-	n, ok := streamDict["/N"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/N not found in stream dict")
-	}
-
-	first, ok := streamDict["/First"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/First not found in stream dict")
-	}
-
-	// Parse header
-	headerData := streamData[:first]
-	headerStr := string(headerData)
-	fields := strings.Fields(headerStr)
-
-	type objEntry struct {
-		objNum int
-		offset int
-	}
-	entries := make([]objEntry, 0, n)
-
-	for i := 0; i < len(fields)-1 && len(entries) < n; i += 2 {
-		on, _ := strconv.Atoi(fields[i])
-		off, _ := strconv.Atoi(fields[i+1])
-		entries = append(entries, objEntry{objNum: on, offset: off})
-	}
-
-	// Extract all objects
-	objects := make(map[int][]byte)
-	for i, entry := range entries {
-		objStart := first + entry.offset
-		var objEnd int
-		if i < len(entries)-1 {
-			objEnd = first + entries[i+1].offset
-		} else {
-			objEnd = len(streamData)
-		}
-
-		objData := streamData[objStart:objEnd]
-		objData = bytes.TrimRight(objData, " \t\r\n")
-		objects[entry.objNum] = objData
-	}
-
-	// Apply updates
-	for objNum, update := range updates {
-		objects[objNum] = update.NewContent
-	}
-
-	// Rebuild stream
-	var newStream bytes.Buffer
-	var newHeader bytes.Buffer
-
-	offset := 0
-	for _, entry := range entries {
-		objData := objects[entry.objNum]
-		newHeader.WriteString(fmt.Sprintf("%d %d ", entry.objNum, offset))
-		newStream.Write(objData)
-		newStream.WriteByte('\n')
-		offset += len(objData) + 1
-	}
-
-	return newStream.Bytes(), newHeader.Bytes(), nil
-}
-
-// formatStreamDict formats a stream dictionary
-func formatStreamDict(dict map[string]interface{}) string {
-	var buf strings.Builder
-	buf.WriteString("<<")
-
-	if n, ok := dict["/N"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /N %d", n))
-	}
-
-	if first, ok := dict["/First"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /First %d", first))
-	}
-
-	if length, ok := dict["/Length"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /Length %d", length))
-	}
-
-	buf.WriteString(" >>")
-	return buf.String()
+	return doc.pdf.Update(changed)
 }
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index b19b7cf..2c204cb 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -6,6 +6,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -54,11 +55,10 @@ func (fb *FieldBuilder) AddTextField(name string, rect []float64, page int) *Fie
 // AddCheckbox adds a checkbox field
 func (fb *FieldBuilder) AddCheckbox(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name:  name,
-		Type:  "Btn",
-		Rect:  rect,
-		Page:  page,
-		Flags: 0x8000, // Checkbox flag
+		Name: name,
+		Type: "Btn",
+		Rect: rect,
+		Page: page,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -71,7 +71,7 @@ func (fb *FieldBuilder) AddRadioButton(name string, rect []float64, page int) *F
 		Type:  "Btn",
 		Rect:  rect,
 		Page:  page,
-		Flags: 0x10000, // Radio button flag
+		Flags: flagRadio,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -93,10 +93,11 @@ func (fb *FieldBuilder) AddChoiceField(name string, rect []float64, page int, op
 // AddButton adds a push button
 func (fb *FieldBuilder) AddButton(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name: name,
-		Type: "Btn",
-		Rect: rect,
-		Page: page,
+		Name:  name,
+		Type:  "Btn",
+		Rect:  rect,
+		Page:  page,
+		Flags: flagPushbutton,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -169,17 +170,23 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	dict.WriteString("<<")
 
 	// Field type
-	dict.WriteString(fmt.Sprintf(" /FT /%s", field.Type))
+	dict.WriteString(" /FT " + syntax.FormatName(field.Type))
 
 	// Field name
 	if field.Name != "" {
-		dict.WriteString(fmt.Sprintf(" /T (%s)", escapeFieldName(field.Name)))
+		dict.WriteString(fmt.Sprintf(" /T %s", syntax.FormatTextString(field.Name)))
 	}
 
 	// Rectangle
 	if len(field.Rect) >= 4 {
-		dict.WriteString(fmt.Sprintf(" /Rect [%.2f %.2f %.2f %.2f]",
-			field.Rect[0], field.Rect[1], field.Rect[2], field.Rect[3]))
+		dict.WriteString(" /Rect [")
+		for i, coordinate := range field.Rect[:4] {
+			if i > 0 {
+				dict.WriteString(" ")
+			}
+			dict.WriteString(strconv.FormatFloat(coordinate, 'f', -1, 64))
+		}
+		dict.WriteString("]")
 	}
 
 	// Flags
@@ -189,14 +196,12 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 
 	// Value
 	if field.Value != nil {
-		valueStr := formatFieldValueForWriter(field.Value, field.Type)
-		dict.WriteString(fmt.Sprintf(" /V (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(fmt.Sprintf(" /V %s", formatFieldValue(field.Value, field.Type)))
 	}
 
 	// Default value
 	if field.DefaultValue != nil {
-		valueStr := formatFieldValueForWriter(field.DefaultValue, field.Type)
-		dict.WriteString(fmt.Sprintf(" /DV (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(fmt.Sprintf(" /DV %s", formatFieldValue(field.DefaultValue, field.Type)))
 	}
 
 	// Maximum length
@@ -211,7 +216,7 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 			if i > 0 {
 				dict.WriteString(" ")
 			}
-			dict.WriteString(fmt.Sprintf("(%s)", escapeFieldValue(opt)))
+			dict.Write(syntax.FormatTextString(opt))
 		}
 		dict.WriteString("]")
 	}
@@ -224,61 +229,6 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	return fb.writer.AddObject([]byte(dict.String()))
 }
 
-// formatFieldValueForWriter formats a value for PDF writing
-func formatFieldValueForWriter(value interface{}, fieldType string) string {
-	switch v := value.(type) {
-	case string:
-		return v
-	case int:
-		return strconv.Itoa(v)
-	case float64:
-		return strconv.FormatFloat(v, 'f', -1, 64)
-	case bool:
-		if fieldType == "Btn" {
-			if v {
-				return "Yes"
-			}
-			return "Off"
-		}
-		return strconv.FormatBool(v)
-	default:
-		return fmt.Sprintf("%v", v)
-	}
-}
-
-// escapeFieldName escapes special characters in field names
-func escapeFieldName(s string) string {
-	return escapeFieldValueForWriter(s)
-}
-
-// escapeFieldValueForWriter escapes special characters in field values
-func escapeFieldValueForWriter(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // AddAcroFormToCatalog adds AcroForm reference to catalog
 func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error {
 	// Get existing catalog
@@ -288,17 +238,17 @@ func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error
 	}
 
 	// Add AcroForm reference
-	catalogStr := string(catalogData)
-	if !strings.Contains(catalogStr, "/AcroForm") {
-		// Find the closing >>
-		dictEnd := strings.LastIndex(catalogStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("invalid catalog dictionary")
-		}
-		newEntry := fmt.Sprintf(" /AcroForm %d 0 R", acroFormNum)
-		catalogStr = catalogStr[:dictEnd] + newEntry + catalogStr[dictEnd:]
-		w.SetObject(catalogNum, []byte(catalogStr))
+	if _, _, ok := syntax.Entries(catalogData); !ok {
+		return fmt.Errorf("invalid catalog dictionary")
+	}
+	if len(syntax.Get(catalogData, "AcroForm")) == 0 {
+		w.SetObject(catalogNum, addEntry(catalogData, "AcroForm", fmt.Sprintf("%d 0 R", acroFormNum)))
 	}
 
 	return nil
 }
+
+// addEntry returns a dictionary with an entry set, whatever it held before
+func addEntry(dict []byte, key, value string) []byte {
+	return syntax.Set(append([]byte(nil), dict...), key, []byte(value))
+}
-- 
2.43.0


From fc8106c834db7154e7e0f339a20e41c5c625d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:15 +0000
Subject: [PATCH 16/28] fix: page resources, text encoding, embedded fonts,
 images and watermarks were written wrong

Text is encoded in WinAnsiEncoding, which fonts declare, instead of UTF-8;
embedded fonts get widths and ToUnicode by character code in thousandths,
a cmap is chosen and read within its bounds, images keep their colors under
a soft mask, resource names do not collide, watermarks use the opacity and
leave nothing behind when they fail, and the media box is exact.
---
 core/syntax/winansi.go  |  13 +++
 core/write/content.go   |  14 ++-
 core/write/image.go     |  29 +++--
 core/write/page.go      | 134 ++++++++++++++--------
 core/write/watermark.go |  73 ++++++------
 core/write/writer.go    |   2 +
 resources/font/font.go  | 164 ++++++++++++++-------------
 resources/font/pdf.go   | 243 +++++++++++++++++++++-------------------
 8 files changed, 376 insertions(+), 296 deletions(-)

diff --git a/core/syntax/winansi.go b/core/syntax/winansi.go
index fb5ba0b..0f3605e 100644
--- a/core/syntax/winansi.go
+++ b/core/syntax/winansi.go
@@ -22,6 +22,19 @@ func WinAnsiCode(char rune) (code byte, ok bool) {
 	return code, ok
 }
 
+// WinAnsiChar returns the character a code stands for in WinAnsiEncoding
+func WinAnsiChar(code byte) (char rune, ok bool) {
+	if code < 0x80 || code >= 0xa0 {
+		return rune(code), true
+	}
+	for char, c := range winAnsi {
+		if c == code {
+			return char, true
+		}
+	}
+	return 0, false
+}
+
 // EncodeWinAnsi encodes text for a font with WinAnsiEncoding. A character the
 // encoding lacks becomes a question mark; bytes that are not UTF-8 are taken to
 // be codes and stay.
diff --git a/core/write/content.go b/core/write/content.go
index 7c7d829..c62b8f2 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -4,6 +4,8 @@ package write
 import (
 	"bytes"
 	"fmt"
+
+	"github.com/benedoc-inc/pdfer/core/syntax"
 )
 
 // ContentStream builds PDF page content streams
@@ -173,13 +175,13 @@ func (cs *ContentStream) SetTextMatrix(a, b, c, d, e, f float64) *ContentStream
 
 // ShowText displays a string (Tj operator)
 func (cs *ContentStream) ShowText(text string) *ContentStream {
-	cs.buf.WriteString(fmt.Sprintf("(%s) Tj\n", escapePDFString(text)))
+	cs.buf.WriteString(textString(text) + " Tj\n")
 	return cs
 }
 
 // ShowTextNextLine moves to next line and shows text (' operator)
 func (cs *ContentStream) ShowTextNextLine(text string) *ContentStream {
-	cs.buf.WriteString(fmt.Sprintf("(%s) '\n", escapePDFString(text)))
+	cs.buf.WriteString(textString(text) + " '\n")
 	return cs
 }
 
@@ -194,7 +196,7 @@ func (cs *ContentStream) ShowTextArray(elements []interface{}) *ContentStream {
 		}
 		switch v := elem.(type) {
 		case string:
-			cs.buf.WriteString(fmt.Sprintf("(%s)", escapePDFString(v)))
+			cs.buf.WriteString(textString(v))
 		case int:
 			cs.buf.WriteString(fmt.Sprintf("%d", v))
 		case float64:
@@ -321,6 +323,12 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 	return cs
 }
 
+// textString returns the string that shows text. The fonts a page has are
+// encoded with WinAnsiEncoding.
+func textString(text string) string {
+	return string(syntax.FormatString(syntax.EncodeWinAnsi(text)))
+}
+
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
diff --git a/core/write/image.go b/core/write/image.go
index c4f5b58..a15baad 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -86,10 +86,9 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 	var colorSpace string
 	var hasAlpha bool
 
-	// Check if image has alpha channel
-	switch img.(type) {
-	case *image.NRGBA, *image.RGBA:
-		hasAlpha = true
+	// Check if image has transparent pixels
+	if opaque, ok := img.(interface{ Opaque() bool }); ok {
+		hasAlpha = !opaque.Opaque()
 	}
 
 	// Convert to RGB or Gray
@@ -108,11 +107,12 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 		rawData = make([]byte, width*height*3)
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
-				r, g, b, _ := img.At(x+bounds.Min.X, y+bounds.Min.Y).RGBA()
+				// The soft mask holds the alpha, so colors are not multiplied by it
+				c := color.NRGBAModel.Convert(img.At(x+bounds.Min.X, y+bounds.Min.Y)).(color.NRGBA)
 				idx := (y*width + x) * 3
-				rawData[idx] = uint8(r >> 8)
-				rawData[idx+1] = uint8(g >> 8)
-				rawData[idx+2] = uint8(b >> 8)
+				rawData[idx] = c.R
+				rawData[idx+1] = c.G
+				rawData[idx+2] = c.B
 			}
 		}
 	}
@@ -182,13 +182,18 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 
 		// Skip padding
 		if marker == 0xFF {
+			pos--
 			continue
 		}
 
-		// SOF0-SOF15 (except SOF4, SOF8, SOF12 which are not frame markers)
-		// We're interested in SOF0 (baseline), SOF1, SOF2 (progressive)
-		if marker >= 0xC0 && marker <= 0xC3 {
-			if pos+7 > len(data) {
+		// Markers without a segment: TEM, RSTn, SOI
+		if marker == 0x00 || marker == 0x01 || marker >= 0xD0 && marker <= 0xD8 {
+			continue
+		}
+
+		// SOF0-SOF15 (except DHT, JPG and DAC, which are not frame markers)
+		if marker >= 0xC0 && marker <= 0xCF && marker != 0xC4 && marker != 0xC8 && marker != 0xCC {
+			if pos+8 > len(data) {
 				return 0, 0, "", fmt.Errorf("truncated SOF segment")
 			}
 
diff --git a/core/write/page.go b/core/write/page.go
index 84c306b..bc87e70 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -3,6 +3,9 @@ package write
 
 import (
 	"fmt"
+	"sort"
+	"strconv"
+	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/resources/font"
@@ -28,8 +31,10 @@ var (
 type PageBuilder struct {
 	writer      *PDFWriter
 	size        PageSize
-	fonts       map[string]int // font name -> object number
-	images      map[string]int // image name -> object number
+	fonts       map[string]int    // font resource name -> object number
+	standard    map[string]string // standard font -> resource name
+	images      map[string]int    // image resource name -> object number
+	gstates     []string          // graphics state parameters, named GS1, GS2, ...
 	content     *ContentStream
 	pageObjNum  int
 	pagesObjNum int
@@ -38,11 +43,12 @@ type PageBuilder struct {
 // NewPageBuilder creates a new page builder
 func (w *PDFWriter) NewPageBuilder(size PageSize) *PageBuilder {
 	return &PageBuilder{
-		writer:  w,
-		size:    size,
-		fonts:   make(map[string]int),
-		images:  make(map[string]int),
-		content: NewContentStream(),
+		writer:   w,
+		size:     size,
+		fonts:    make(map[string]int),
+		standard: make(map[string]string),
+		images:   make(map[string]int),
+		content:  NewContentStream(),
 	}
 }
 
@@ -54,34 +60,42 @@ func (pb *PageBuilder) Content() *ContentStream {
 // AddStandardFont adds a standard PDF font (Helvetica, Times-Roman, etc.)
 // Returns the resource name to use (e.g., "/F1")
 func (pb *PageBuilder) AddStandardFont(fontName string) string {
-	// Check if already added
-	for name, _ := range pb.fonts {
-		if name == fontName {
-			return "/" + name
-		}
+	if resourceName, ok := pb.standard[fontName]; ok {
+		return "/" + resourceName
 	}
 
 	// Create font dictionary
-	resourceName := fmt.Sprintf("F%d", len(pb.fonts)+1)
-	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", fontName)
-	objNum := pb.writer.AddObject([]byte(fontDict))
-	pb.fonts[resourceName] = objNum
+	resourceName := unusedName(pb.fonts, "F")
+	encoding := "/Encoding/WinAnsiEncoding"
+	if fontName == "Symbol" || fontName == "ZapfDingbats" {
+		encoding = "" // they have their own
+	}
+	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont%s%s>>", syntax.FormatName(fontName), encoding)
+	pb.fonts[resourceName] = pb.writer.AddObject([]byte(fontDict))
+	pb.standard[fontName] = resourceName
 
 	return "/" + resourceName
 }
 
-// AddImage adds an image and returns the resource name
-func (pb *PageBuilder) AddImage(info *ImageInfo) string {
-	resourceName := info.Name
-	if resourceName == "" {
-		resourceName = fmt.Sprintf("Im%d", len(pb.images)+1)
+// unusedName returns a resource name that is not in use
+func unusedName(used map[string]int, prefix string) string {
+	for n := len(used) + 1; ; n++ {
+		name := fmt.Sprintf("%s%d", prefix, n)
+		if _, taken := used[name]; !taken {
+			return name
+		}
 	}
-	// Remove leading / if present
-	if len(resourceName) > 0 && resourceName[0] == '/' {
-		resourceName = resourceName[1:]
+}
+
+// AddImage adds an image and returns the resource name, which is the image's
+// own unless another image of the page has it
+func (pb *PageBuilder) AddImage(info *ImageInfo) string {
+	resourceName := strings.TrimPrefix(info.Name, "/")
+	if objNum, taken := pb.images[resourceName]; resourceName == "" || taken && objNum != info.ObjectNum {
+		resourceName = unusedName(pb.images, "Im")
 	}
 	pb.images[resourceName] = info.ObjectNum
-	return "/" + resourceName
+	return syntax.FormatName(resourceName)
 }
 
 // AddEmbeddedFont adds an embedded TrueType/OpenType font and returns the resource name
@@ -97,10 +111,9 @@ func (pb *PageBuilder) AddEmbeddedFont(f *font.Font) (string, error) {
 	}
 
 	// Store font by resource name
-	resourceName := fontObjs.ResourceName
-	// Remove leading / if present
-	if len(resourceName) > 0 && resourceName[0] == '/' {
-		resourceName = resourceName[1:]
+	resourceName := strings.TrimPrefix(fontObjs.ResourceName, "/")
+	if _, taken := pb.fonts[resourceName]; taken {
+		resourceName = unusedName(pb.fonts, "F")
 	}
 	pb.fonts[resourceName] = fontObjs.FontDictNum
 
@@ -133,36 +146,58 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	contentObjNum := pb.writer.AddStreamObject(contentDict, pb.content.Bytes(), true)
 
 	// Build resources dictionary
-	resources := "<<"
-
-	// Add fonts
-	if len(pb.fonts) > 0 {
-		resources += "/Font<<"
-		for name, objNum := range pb.fonts {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
+	resources := "<<" + resourceDict("Font", pb.fonts) + resourceDict("XObject", pb.images)
+	if len(pb.gstates) > 0 {
+		resources += "/ExtGState<<"
+		for i, params := range pb.gstates {
+			resources += fmt.Sprintf("/GS%d%s", i+1, params)
 		}
 		resources += ">>"
 	}
-
-	// Add images as XObjects
-	if len(pb.images) > 0 {
-		resources += "/XObject<<"
-		for name, objNum := range pb.images {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
-		}
-		resources += ">>"
-	}
-
 	resources += ">>"
 
 	// Create page object
-	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %.0f %.0f]/Contents %d 0 R/Resources%s>>`,
-		pagesObjNum, pb.size.Width, pb.size.Height, contentObjNum, resources)
+	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %s %s]/Contents %d 0 R/Resources%s>>`,
+		pagesObjNum, formatNumber(pb.size.Width), formatNumber(pb.size.Height), contentObjNum, resources)
 	pb.pageObjNum = pb.writer.AddObject([]byte(pageDict))
 
 	return pb.pageObjNum
 }
 
+// resourceDict returns a resource dictionary's entry for a category
+func resourceDict(category string, objects map[string]int) string {
+	if len(objects) == 0 {
+		return ""
+	}
+	names := make([]string, 0, len(objects))
+	for name := range objects {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	dict := "/" + category + "<<"
+	for _, name := range names {
+		dict += fmt.Sprintf("%s %d 0 R", syntax.FormatName(name), objects[name])
+	}
+	return dict + ">>"
+}
+
+// formatNumber returns a number as PDF syntax
+func formatNumber(number float64) string {
+	return strconv.FormatFloat(number, 'f', -1, 64)
+}
+
+// addOpacity adds a graphics state with the given opacity and returns its resource name
+func (pb *PageBuilder) addOpacity(opacity float64) string {
+	params := fmt.Sprintf("<</Type/ExtGState/ca %[1]s/CA %[1]s>>", formatNumber(opacity))
+	for i, existing := range pb.gstates {
+		if existing == params {
+			return fmt.Sprintf("/GS%d", i+1)
+		}
+	}
+	pb.gstates = append(pb.gstates, params)
+	return fmt.Sprintf("/GS%d", len(pb.gstates))
+}
+
 // SimplePDFBuilder provides a high-level API for creating simple PDFs
 type SimplePDFBuilder struct {
 	writer        *PDFWriter
@@ -211,6 +246,9 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	kids += "]"
 
 	// Create/update Pages object
+	if b.pagesObjNum == 0 {
+		b.pagesObjNum = b.writer.nextObjNum
+	}
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
 	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
 
diff --git a/core/write/watermark.go b/core/write/watermark.go
index 9718a13..c2661df 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -3,6 +3,9 @@ package write
 import (
 	"fmt"
 	"math"
+	"unicode/utf8"
+
+	"github.com/benedoc-inc/pdfer/core/syntax"
 )
 
 // WatermarkOptions configures watermark appearance
@@ -41,23 +44,40 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		options = DefaultWatermarkOptions()
 	}
 
+	// Fill in what is not given
+	defaults := DefaultWatermarkOptions()
+	fontName, fontSize, color := options.FontName, options.FontSize, options.Color
+	if fontName == "" {
+		fontName = defaults.FontName
+	}
+	if fontSize == 0 {
+		fontSize = defaults.FontSize
+	}
+	if color == nil {
+		color = defaults.Color
+	}
+
+	imageName := options.ImageName
+	if name, ok := syntax.Name([]byte(imageName)); ok {
+		imageName = name
+	}
+	if imageName != "" {
+		// The image must have been added to the page
+		if _, exists := pb.images[imageName]; !exists {
+			return fmt.Errorf("image %q not found in page resources", options.ImageName)
+		}
+	} else if options.Text == "" {
+		return fmt.Errorf("watermark text cannot be empty")
+	}
+
 	// Save graphics state
 	pb.content.SaveState()
 
-	// Set opacity using ExtGState (if opacity < 1.0)
+	// Set opacity and color
 	if options.Opacity < 1.0 {
-		// For simplicity, we'll use the gs operator with an ExtGState
-		// For now, just set color with reduced opacity by adjusting RGB
-		// Full ExtGState support would require adding it to resources
-		opacity := options.Opacity
-		pb.content.SetFillColorRGB(
-			options.Color.R*opacity,
-			options.Color.G*opacity,
-			options.Color.B*opacity,
-		)
-	} else {
-		pb.content.SetFillColorRGB(options.Color.R, options.Color.G, options.Color.B)
+		pb.content.Raw(pb.addOpacity(options.Opacity) + " gs")
 	}
+	pb.content.SetFillColorRGB(color.R, color.G, color.B)
 
 	// Calculate center if not specified
 	centerX := options.X
@@ -80,40 +100,27 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		)
 	}
 
-	if options.ImageName != "" {
-		// Image watermark
-		// Add image to resources if not already added
-		if _, exists := pb.images[options.ImageName]; !exists {
-			return fmt.Errorf("image %q not found in page resources", options.ImageName)
-		}
-
-		// Draw image centered using Do operator
-		// Scale and position the image
-		// For simplicity, scale to reasonable size and center
-		// Image will be drawn at current position (0,0 after translate/rotate)
-		pb.content.Translate(-pb.size.Width/4, -pb.size.Height/4) // Center the image
+	if imageName != "" {
+		// Image watermark: half the page's size, centered
+		pb.content.Translate(-pb.size.Width/4, -pb.size.Height/4)
 		pb.content.Scale(pb.size.Width/2, pb.size.Height/2)
-		pb.content.DrawImage(options.ImageName)
+		pb.content.DrawImage(syntax.FormatName(imageName))
 	} else {
 		// Text watermark
-		if options.Text == "" {
-			return fmt.Errorf("watermark text cannot be empty")
-		}
-
 		// Add font if not already added
-		fontName := pb.AddStandardFont(options.FontName)
+		fontName = pb.AddStandardFont(fontName)
 
 		// Begin text
 		pb.content.BeginText()
 
 		// Set font and size
-		pb.content.SetFont(fontName, options.FontSize)
+		pb.content.SetFont(fontName, fontSize)
 
 		// Calculate text position (center the text)
 		// For simplicity, approximate text width (could be improved)
-		textWidth := float64(len(options.Text)) * options.FontSize * 0.6
+		textWidth := float64(utf8.RuneCountInString(options.Text)) * fontSize * 0.6
 		textX := -textWidth / 2
-		textY := -options.FontSize / 2
+		textY := -fontSize / 2
 
 		pb.content.SetTextPosition(textX, textY)
 
diff --git a/core/write/writer.go b/core/write/writer.go
index 5081022..dc89f5f 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -412,6 +412,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return "[" + strings.Join(items, " ") + "]"
 	case Dictionary:
 		return string(w.formatDictionary(v))
+	case map[string]interface{}:
+		return string(w.formatDictionary(v))
 	default:
 		return fmt.Sprintf("%v", v)
 	}
diff --git a/resources/font/font.go b/resources/font/font.go
index 29d0dae..0ca0e51 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"sort"
 	"unicode"
+	"unicode/utf16"
 )
 
 // Font represents an embedded font with subsetting support
@@ -25,6 +26,8 @@ type TTF struct {
 	Tables             map[string]*Table
 	NumGlyphs          uint16
 	UnitsPerEm         uint16
+	BBox               [4]int16
+	NumHMetrics        uint16
 	Ascent             int16
 	Descent            int16
 	CapHeight          int16
@@ -145,6 +148,12 @@ func (ttf *TTF) parseHead() error {
 	}
 
 	ttf.UnitsPerEm = binary.BigEndian.Uint16(head.Data[18:20])
+	if ttf.UnitsPerEm == 0 {
+		return fmt.Errorf("unitsPerEm is zero")
+	}
+	for i := range ttf.BBox {
+		ttf.BBox[i] = int16(binary.BigEndian.Uint16(head.Data[36+2*i : 38+2*i]))
+	}
 	return nil
 }
 
@@ -174,6 +183,7 @@ func (ttf *TTF) parseHhea() error {
 
 	ttf.Ascent = int16(binary.BigEndian.Uint16(hhea.Data[4:6]))
 	ttf.Descent = int16(binary.BigEndian.Uint16(hhea.Data[6:8]))
+	ttf.NumHMetrics = binary.BigEndian.Uint16(hhea.Data[34:36])
 	return nil
 }
 
@@ -204,22 +214,18 @@ func (ttf *TTF) parseName() error {
 		startOffset := binary.BigEndian.Uint16(name.Data[offset+10 : offset+12])
 
 		// We're interested in Unicode names (platform 3 or 0)
-		if (platformID == 3 || platformID == 0) && int(stringOffset)+int(startOffset)+int(length) <= len(name.Data) {
-			nameData := name.Data[stringOffset+startOffset : stringOffset+startOffset+length]
+		start := int(stringOffset) + int(startOffset)
+		if (platformID == 3 || platformID == 0) && start+int(length) <= len(name.Data) {
+			nameData := name.Data[start : start+int(length)]
 
+			// UTF-16BE
 			var nameStr string
-			if platformID == 3 {
-				// UTF-16BE
-				if len(nameData)%2 == 0 {
-					runes := make([]rune, 0, len(nameData)/2)
-					for j := 0; j < len(nameData); j += 2 {
-						runes = append(runes, rune(binary.BigEndian.Uint16(nameData[j:j+2])))
-					}
-					nameStr = string(runes)
+			if len(nameData)%2 == 0 {
+				units := make([]uint16, 0, len(nameData)/2)
+				for j := 0; j < len(nameData); j += 2 {
+					units = append(units, binary.BigEndian.Uint16(nameData[j:j+2]))
 				}
-			} else {
-				// ASCII
-				nameStr = string(nameData)
+				nameStr = string(utf16.Decode(units))
 			}
 
 			switch nameID {
@@ -269,9 +275,9 @@ func (ttf *TTF) parsePost() error {
 	ttf.IsFixedPitch = binary.BigEndian.Uint32(post.Data[12:16]) != 0
 
 	// Try to get CapHeight and XHeight from OS/2 table if available
-	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 88 {
-		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[68:70]))
-		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[70:72]))
+	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 90 {
+		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[86:88]))
+		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[88:90]))
 	}
 
 	return nil
@@ -353,9 +359,10 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 
 	glyphMap := make(map[rune]uint16)
 
-	// Find Unicode encoding (platform 3, encoding 1 or 10)
-	var bestTable *Table
-	var bestOffset uint32
+	// Find the best Unicode subtable in a format we read: full Unicode
+	// (platform 3, encoding 10) before the BMP (encoding 1) before platform 0
+	var best []byte
+	bestRank := 0
 
 	for i := 0; i < int(numTables); i++ {
 		if offset+8 > len(data) {
@@ -365,63 +372,35 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 		platformID := binary.BigEndian.Uint16(data[offset : offset+2])
 		encodingID := binary.BigEndian.Uint16(data[offset+2 : offset+4])
 		subtableOffset := binary.BigEndian.Uint32(data[offset+4 : offset+8])
-
-		// Prefer platform 3, encoding 1 (Unicode BMP) or 10 (Unicode full)
-		if platformID == 3 && (encodingID == 1 || encodingID == 10) {
-			if bestTable == nil || encodingID == 10 {
-				bestTable = &Table{Offset: subtableOffset}
-				bestOffset = subtableOffset
-			}
-		}
-
 		offset += 8
-	}
-
-	if bestTable == nil {
-		// Try platform 0 (Unicode)
-		offset = 4
-		for i := 0; i < int(numTables); i++ {
-			if offset+8 > len(data) {
-				break
-			}
-
-			platformID := binary.BigEndian.Uint16(data[offset : offset+2])
-			_ = binary.BigEndian.Uint16(data[offset+2 : offset+4]) // encodingID
-			subtableOffset := binary.BigEndian.Uint32(data[offset+4 : offset+8])
-
-			if platformID == 0 {
-				bestTable = &Table{Offset: subtableOffset}
-				bestOffset = subtableOffset
-				break
-			}
 
-			offset += 8
+		rank := 0
+		switch {
+		case platformID == 3 && encodingID == 10:
+			rank = 3
+		case platformID == 3 && encodingID == 1:
+			rank = 2
+		case platformID == 0:
+			rank = 1
+		}
+		if rank <= bestRank || int64(subtableOffset)+2 > int64(len(data)) {
+			continue
+		}
+		subtable := data[subtableOffset:]
+		if format := binary.BigEndian.Uint16(subtable[0:2]); format == 4 || format == 12 {
+			best, bestRank = subtable, rank
 		}
 	}
 
-	if bestTable == nil {
+	if best == nil {
 		return nil, fmt.Errorf("no Unicode cmap subtable found")
 	}
-
-	// Parse the subtable
-	subtableData := data[bestOffset:]
-	if len(subtableData) < 2 {
-		return nil, fmt.Errorf("cmap subtable too short")
-	}
-
-	format := binary.BigEndian.Uint16(subtableData[0:2])
-
-	switch format {
-	case 4:
-		// Format 4: Segment mapping to delta values
-		return parseCmapFormat4(subtableData, glyphMap)
-	case 12:
+	if binary.BigEndian.Uint16(best[0:2]) == 12 {
 		// Format 12: Segmented coverage
-		return parseCmapFormat12(subtableData, glyphMap)
-	default:
-		// Try format 4 as fallback
-		return parseCmapFormat4(subtableData, glyphMap)
+		return parseCmapFormat12(best, glyphMap)
 	}
+	// Format 4: Segment mapping to delta values
+	return parseCmapFormat4(best, glyphMap)
 }
 
 // parseCmapFormat4 parses cmap format 4 (most common)
@@ -444,10 +423,13 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 	startCodeOffset := endCodeOffset + 2 + int(segCount)*2
 	idDeltaOffset := startCodeOffset + int(segCount)*2
 	idRangeOffsetOffset := idDeltaOffset + int(segCount)*2
+	if idRangeOffsetOffset+int(segCount)*2 > len(data) {
+		return nil, fmt.Errorf("cmap format 4 segments truncated")
+	}
 
 	for i := 0; i < int(segCount); i++ {
-		startCode := binary.BigEndian.Uint16(data[startCodeOffset+i*2 : startCodeOffset+i*2+2])
-		endCode := binary.BigEndian.Uint16(data[endCodeOffset+i*2 : endCodeOffset+i*2+2])
+		startCode := int(binary.BigEndian.Uint16(data[startCodeOffset+i*2 : startCodeOffset+i*2+2]))
+		endCode := int(binary.BigEndian.Uint16(data[endCodeOffset+i*2 : endCodeOffset+i*2+2]))
 		idDelta := int16(binary.BigEndian.Uint16(data[idDeltaOffset+i*2 : idDeltaOffset+i*2+2]))
 		idRangeOffset := binary.BigEndian.Uint16(data[idRangeOffsetOffset+i*2 : idRangeOffsetOffset+i*2+2])
 
@@ -459,9 +441,9 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 			var glyphID uint16
 
 			if idRangeOffset == 0 {
-				glyphID = uint16(int16(code) + idDelta)
+				glyphID = uint16(code + int(idDelta))
 			} else {
-				glyphOffset := idRangeOffsetOffset + int(i)*2 + int(idRangeOffset) + int(code-startCode)*2
+				glyphOffset := idRangeOffsetOffset + int(i)*2 + int(idRangeOffset) + (code-startCode)*2
 				if glyphOffset+2 <= len(data) {
 					glyphID = binary.BigEndian.Uint16(data[glyphOffset : glyphOffset+2])
 					if glyphID != 0 {
@@ -502,9 +484,17 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 		endCharCode := binary.BigEndian.Uint32(data[offset+4 : offset+8])
 		startGlyphID := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 
+		if endCharCode > unicode.MaxRune {
+			endCharCode = unicode.MaxRune
+		}
 		for code := startCharCode; code <= endCharCode; code++ {
-			glyphID := uint16(startGlyphID + (code - startCharCode))
-			glyphMap[rune(code)] = glyphID
+			glyphID := uint64(startGlyphID) + uint64(code-startCharCode)
+			if glyphID > 0xFFFF {
+				break
+			}
+			if glyphID != 0 {
+				glyphMap[rune(code)] = uint16(glyphID)
+			}
 		}
 
 		offset += 12
@@ -534,24 +524,32 @@ func (f *Font) GetWidths() ([]int, error) {
 		return nil, err
 	}
 
-	// Parse hmtx table for widths
-	hmtx, ok := ttf.Tables["hmtx"]
-	if !ok {
-		return nil, fmt.Errorf("missing hmtx table")
-	}
-
 	widths := make([]int, len(glyphs))
 	for i, gid := range glyphs {
-		if int(gid)*4+2 <= len(hmtx.Data) {
-			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[gid*4 : gid*4+2]))
-		} else {
-			widths[i] = int(ttf.UnitsPerEm) // Default width
+		if widths[i], err = ttf.glyphWidth(gid); err != nil {
+			return nil, err
 		}
 	}
 
 	return widths, nil
 }
 
+// glyphWidth returns a glyph's advance width in font units
+func (ttf *TTF) glyphWidth(gid uint16) (int, error) {
+	hmtx, ok := ttf.Tables["hmtx"]
+	if !ok {
+		return 0, fmt.Errorf("missing hmtx table")
+	}
+	// Glyphs after the last metric share its width
+	if gid >= ttf.NumHMetrics && ttf.NumHMetrics > 0 {
+		gid = ttf.NumHMetrics - 1
+	}
+	if int(gid)*4+2 > len(hmtx.Data) {
+		return int(ttf.UnitsPerEm), nil // Default width
+	}
+	return int(binary.BigEndian.Uint16(hmtx.Data[int(gid)*4 : int(gid)*4+2])), nil
+}
+
 // Read reads font data from a reader
 func Read(r io.Reader) ([]byte, error) {
 	var buf bytes.Buffer
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 038a41d..b08f7e6 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -4,9 +4,10 @@ package font
 import (
 	"bytes"
 	"crypto/md5"
-	"encoding/hex"
 	"fmt"
-	"sort"
+	"math"
+
+	"github.com/benedoc-inc/pdfer/core/syntax"
 )
 
 // FontObjects represents the PDF objects needed for an embedded font
@@ -30,20 +31,18 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	// Generate subset prefix from font name hash
 	if f.FontID == "" {
 		hash := md5.Sum([]byte(ttf.FontName))
-		f.FontID = hex.EncodeToString(hash[:6])
+		tag := make([]byte, 6)
+		for i := range tag {
+			tag[i] = 'A' + hash[i]%26
+		}
+		f.FontID = string(tag)
 	}
 	subsetPrefix := f.FontID + "+"
 
-	// Get subset glyphs
-	glyphs, err := f.GetSubsetGlyphs()
-	if err != nil {
-		return nil, fmt.Errorf("failed to get subset glyphs: %w", err)
-	}
-
-	// Get widths
-	widths, err := f.GetWidths()
+	// Get the characters the font can show
+	chars, err := ttf.encodedChars()
 	if err != nil {
-		return nil, fmt.Errorf("failed to get widths: %w", err)
+		return nil, err
 	}
 
 	// Create font file stream (subset font)
@@ -57,27 +56,30 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 		"/Length1": len(fontFileData),
 		"/Length":  len(fontFileData),
 	}
+	if ttf.isCFF() {
+		fontFileDict = map[string]interface{}{"/Subtype": "/OpenType"}
+	}
 	fontFileNum := writer.AddStreamObject(fontFileDict, fontFileData, true)
 
 	// Create FontDescriptor (references fontFileNum)
-	fontDescriptor := f.createFontDescriptor(ttf, fontFileNum)
+	fontDescriptor := f.createFontDescriptor(ttf, fontFileNum, subsetPrefix)
 	fontDescriptorNum := writer.AddObject(fontDescriptor)
 
 	// Create ToUnicode CMap (as stream object)
-	toUnicodeData := f.createToUnicodeCMapData(glyphs)
+	toUnicodeData := f.createToUnicodeCMapData(chars)
 	toUnicodeDict := map[string]interface{}{
 		"/Type":     "/CMap",
 		"/CMapName": "/Adobe-Identity-UCS",
 		"/CIDSystemInfo": map[string]interface{}{
-			"/Registry":   "(Adobe)",
-			"/Ordering":   "(UCS)",
+			"/Registry":   "Adobe",
+			"/Ordering":   "UCS",
 			"/Supplement": 0,
 		},
 	}
 	toUnicodeNum := writer.AddStreamObject(toUnicodeDict, toUnicodeData, false) // Don't compress CMap
 
 	// Create Font dictionary (references fontDescriptorNum and toUnicodeNum)
-	fontDict := f.createFontDict(ttf, fontDescriptorNum, toUnicodeNum, glyphs, widths, subsetPrefix)
+	fontDict := f.createFontDict(ttf, fontDescriptorNum, toUnicodeNum, chars, subsetPrefix)
 	fontDictNum := writer.AddObject(fontDict)
 
 	// Generate resource name
@@ -100,27 +102,79 @@ type PDFWriter interface {
 	NextObjectNumber() int
 }
 
+// encodedChar is a code of the font's encoding and what it stands for
+type encodedChar struct {
+	code  byte
+	char  rune
+	width int // in thousandths of the font size
+}
+
+// encodedChars returns the codes of WinAnsiEncoding the font has glyphs for, in order
+func (ttf *TTF) encodedChars() ([]encodedChar, error) {
+	cmap, ok := ttf.Tables["cmap"]
+	if !ok {
+		return nil, fmt.Errorf("missing cmap table")
+	}
+	glyphMap, err := parseCmap(cmap.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse cmap: %w", err)
+	}
+	var chars []encodedChar
+	for code := 32; code < 256; code++ {
+		char, ok := syntax.WinAnsiChar(byte(code))
+		if !ok {
+			continue
+		}
+		gid, ok := glyphMap[char]
+		if !ok {
+			continue
+		}
+		width, err := ttf.glyphWidth(gid)
+		if err != nil {
+			return nil, err
+		}
+		chars = append(chars, encodedChar{byte(code), char, ttf.scale(width)})
+	}
+	return chars, nil
+}
+
+// scale converts font units to thousandths of the font size
+func (ttf *TTF) scale(units int) int {
+	return int(math.Round(float64(units) * 1000 / float64(ttf.UnitsPerEm)))
+}
+
+// isCFF tells whether the glyphs are PostScript outlines
+func (ttf *TTF) isCFF() bool {
+	return string(ttf.Data[:4]) == "OTTO"
+}
+
 // createFontDict creates the Font dictionary
-func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, glyphs []uint16, widths []int, subsetPrefix string) []byte {
+func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, chars []encodedChar, subsetPrefix string) []byte {
 	var buf bytes.Buffer
 
-	// Base font name with subset prefix
-	baseFontName := subsetPrefix + ttf.FontName
-
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /Font\n")
-	buf.WriteString("/Subtype /TrueType\n")
-	buf.WriteString(fmt.Sprintf("/BaseFont /%s\n", escapeName(baseFontName)))
-	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", 0))
-	buf.WriteString(fmt.Sprintf("/LastChar %d\n", len(glyphs)-1))
+	if ttf.isCFF() {
+		buf.WriteString("/Subtype /Type1\n")
+	} else {
+		buf.WriteString("/Subtype /TrueType\n")
+	}
+	buf.WriteString(fmt.Sprintf("/BaseFont %s\n", syntax.FormatName(subsetPrefix+f.fontName(ttf))))
+	buf.WriteString("/Encoding /WinAnsiEncoding\n")
+	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", 32))
+	buf.WriteString(fmt.Sprintf("/LastChar %d\n", 255))
 
 	// Width array
+	widths := make([]int, 256)
+	for _, char := range chars {
+		widths[char.code] = char.width
+	}
 	buf.WriteString("/Widths [")
-	for i, width := range widths {
-		if i > 0 {
+	for code := 32; code < 256; code++ {
+		if code > 32 {
 			buf.WriteString(" ")
 		}
-		buf.WriteString(fmt.Sprintf("%d", width))
+		buf.WriteString(fmt.Sprintf("%d", widths[code]))
 	}
 	buf.WriteString("]\n")
 
@@ -135,52 +189,53 @@ func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, gly
 	return buf.Bytes()
 }
 
+// fontName returns the font's PostScript name
+func (f *Font) fontName(ttf *TTF) string {
+	if ttf.FontName != "" {
+		return ttf.FontName
+	}
+	return f.Name
+}
+
 // createFontDescriptor creates the FontDescriptor dictionary
-func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
+func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int, subsetPrefix string) []byte {
 	var buf bytes.Buffer
 
+	capHeight := ttf.CapHeight
+	if capHeight == 0 {
+		capHeight = ttf.Ascent
+	}
+	fontFile := "FontFile2"
+	if ttf.isCFF() {
+		fontFile = "FontFile3"
+	}
+
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /FontDescriptor\n")
-	buf.WriteString(fmt.Sprintf("/FontName /%s\n", escapeName(ttf.FontName)))
-	buf.WriteString(fmt.Sprintf("/FontFamily (%s)\n", escapeString(ttf.FamilyName)))
+	buf.WriteString(fmt.Sprintf("/FontName %s\n", syntax.FormatName(subsetPrefix+f.fontName(ttf))))
+	buf.WriteString(fmt.Sprintf("/FontFamily %s\n", syntax.FormatTextString(ttf.FamilyName)))
 	buf.WriteString(fmt.Sprintf("/Flags %d\n", f.getFontFlags(ttf)))
-	buf.WriteString(fmt.Sprintf("/FontBBox [%d %d %d %d]\n",
-		-100, -100, int(ttf.UnitsPerEm)+100, int(ttf.UnitsPerEm)+100)) // Simplified bbox
+	buf.WriteString("/FontBBox [")
+	for i, edge := range ttf.BBox {
+		if i > 0 {
+			buf.WriteString(" ")
+		}
+		buf.WriteString(fmt.Sprintf("%d", ttf.scale(int(edge))))
+	}
+	buf.WriteString("]\n")
 	buf.WriteString(fmt.Sprintf("/ItalicAngle %.4f\n", ttf.ItalicAngle))
-	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.Ascent))
-	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.Descent))
-	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.CapHeight))
+	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.scale(int(ttf.Ascent))))
+	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.scale(int(ttf.Descent))))
+	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.scale(int(capHeight))))
 	buf.WriteString(fmt.Sprintf("/StemV %d\n", 80)) // Default stem width
-	buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
+	buf.WriteString(fmt.Sprintf("/%s %d 0 R\n", fontFile, fontFileNum))
 	buf.WriteString(">>")
 
 	return buf.Bytes()
 }
 
 // createToUnicodeCMapData creates ToUnicode CMap stream data for text extraction
-func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
-	// Get glyph to Unicode mapping
-	ttf, err := ParseTTF(f.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	cmap, ok := ttf.Tables["cmap"]
-	if !ok {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	glyphMap, err := parseCmap(cmap.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	// Create reverse mapping: glyph ID -> Unicode
-	glyphToUnicode := make(map[uint16][]rune)
-	for unicode, gid := range glyphMap {
-		glyphToUnicode[gid] = append(glyphToUnicode[gid], unicode)
-	}
-
+func (f *Font) createToUnicodeCMapData(chars []encodedChar) []byte {
 	// Build CMap content
 	var buf bytes.Buffer
 	buf.WriteString("/CIDInit /ProcSet findresource begin\n")
@@ -198,22 +253,19 @@ func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
 	buf.WriteString("<00> <FF>\n")
 	buf.WriteString("endcodespacerange\n")
 
-	// Write bfchar entries (glyph -> Unicode)
-	sort.Slice(glyphs, func(i, j int) bool {
-		return glyphs[i] < glyphs[j]
-	})
-
-	buf.WriteString(fmt.Sprintf("%d beginbfchar\n", len(glyphs)))
-	for _, gid := range glyphs {
-		unicodes := glyphToUnicode[gid]
-		if len(unicodes) > 0 {
-			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", gid, unicodes[0]))
-		} else {
-			// Map to space if no Unicode found
-			buf.WriteString(fmt.Sprintf("<%02X> <0020>\n", gid))
+	// Write bfchar entries (code -> Unicode), at most 100 in a section
+	for len(chars) > 0 {
+		section := chars
+		if len(section) > 100 {
+			section = section[:100]
+		}
+		chars = chars[len(section):]
+		buf.WriteString(fmt.Sprintf("%d beginbfchar\n", len(section)))
+		for _, char := range section {
+			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", char.code, char.char))
 		}
+		buf.WriteString("endbfchar\n")
 	}
-	buf.WriteString("endbfchar\n")
 
 	buf.WriteString("endcmap\n")
 	buf.WriteString("CMapName currentdict /CMap defineresource pop\n")
@@ -248,46 +300,3 @@ func (f *Font) getFontFlags(ttf *TTF) int {
 
 	return flags
 }
-
-// escapeName escapes a PDF name
-func escapeName(s string) string {
-	var buf bytes.Buffer
-	for _, r := range s {
-		if r == ' ' || r == '#' || r == '/' || r == '(' || r == ')' || r == '<' || r == '>' || r == '[' || r == ']' || r == '{' || r == '}' || r == '%' {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
-		} else if r > 127 {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
-		} else {
-			buf.WriteRune(r)
-		}
-	}
-	return buf.String()
-}
-
-// escapeString escapes a PDF string
-func escapeString(s string) string {
-	var buf bytes.Buffer
-	for _, r := range s {
-		switch r {
-		case '\\':
-			buf.WriteString("\\\\")
-		case '(':
-			buf.WriteString("\\(")
-		case ')':
-			buf.WriteString("\\)")
-		case '\n':
-			buf.WriteString("\\n")
-		case '\r':
-			buf.WriteString("\\r")
-		case '\t':
-			buf.WriteString("\\t")
-		default:
-			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				buf.WriteRune(r)
-			}
-		}
-	}
-	return buf.String()
-}
-- 
2.43.0


From b9628ce3907bbd39c29c3796b76cabde009a8c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:26 +0000
Subject: [PATCH 17/28] fix: judge form data by stored options, characters and
 inherited requirements

Choice values were compared with printed [value label] pairs, lists and empty
values were refused, text was measured in bytes, radio buttons were confused
with push buttons, required fields below the second level or given empty were
accepted, and errors came in random order.
---
 forms/acroform/validation.go | 191 ++++++++++++++++++-----------------
 1 file changed, 98 insertions(+), 93 deletions(-)

diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index d984078..54070a9 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -4,7 +4,9 @@ package acroform
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -20,21 +22,37 @@ func (e *ValidationError) Error() string {
 	return fmt.Sprintf("validation error for field '%s': %s (value: %v)", e.FieldName, e.Message, e.Value)
 }
 
+// isEmptyValue tells a value that stands for no value at all
+func isEmptyValue(value interface{}) bool {
+	switch v := value.(type) {
+	case nil:
+		return true
+	case string:
+		return v == ""
+	case []string:
+		return len(v) == 0
+	case []interface{}:
+		return len(v) == 0
+	}
+	return false
+}
+
 // ValidateField validates a single field value against its constraints
 func ValidateField(field *Field, value interface{}) error {
 	if field == nil {
 		return fmt.Errorf("field is nil")
 	}
 
-	// Check required
-	if (field.Ff & 0x2) != 0 { // Required flag
-		if value == nil || value == "" {
+	// An empty value breaks no rule but that there must be one
+	if isEmptyValue(value) {
+		if (field.Ff & 0x2) != 0 { // Required flag
 			return &ValidationError{
 				FieldName: field.GetFullName(),
 				Message:   "field is required",
 				Value:     value,
 			}
 		}
+		return nil
 	}
 
 	// Check read-only
@@ -52,7 +70,8 @@ func ValidateField(field *Field, value interface{}) error {
 	case "Ch": // Choice field
 		return validateChoiceField(field, value)
 	case "Sig": // Signature field
-		return validateSignatureField(field, value)
+		// Signature dictionaries or certificate data: only checked for presence
+		return nil
 	}
 
 	return nil
@@ -66,7 +85,7 @@ func validateTextField(field *Field, value interface{}) error {
 	}
 
 	// Check max length
-	if field.MaxLen > 0 && len(valueStr) > field.MaxLen {
+	if field.MaxLen > 0 && utf8.RuneCountInString(valueStr) > field.MaxLen {
 		return &ValidationError{
 			FieldName: field.GetFullName(),
 			Message:   fmt.Sprintf("value exceeds maximum length of %d", field.MaxLen),
@@ -86,38 +105,21 @@ func validateTextField(field *Field, value interface{}) error {
 
 // validateButtonField validates a button field (checkbox/radio/button)
 func validateButtonField(field *Field, value interface{}) error {
-	// Checkbox validation
-	if (field.Ff & 0x8000) != 0 { // Checkbox flag
-		// Checkbox values are typically "Yes", "On", "Off", or appearance state names
-		valueStr := fmt.Sprintf("%v", value)
-		if valueStr != "Yes" && valueStr != "On" && valueStr != "Off" && valueStr != "No" {
-			// Allow custom appearance state names
-			return nil
-		}
+	// Checkboxes take custom appearance state names; radio buttons should match
+	// one of the option values, or be off
+	if (field.Ff&flagRadio) == 0 || (field.Ff&flagPushbutton) != 0 || len(field.Opt) == 0 {
+		return nil
 	}
-
-	// Radio button validation
-	if (field.Ff & 0x10000) != 0 { // Radio button flag
-		// Radio buttons should match one of the option values
-		if len(field.Opt) > 0 {
-			valueStr := fmt.Sprintf("%v", value)
-			found := false
-			for _, opt := range field.Opt {
-				if fmt.Sprintf("%v", opt) == valueStr {
-					found = true
-					break
-				}
-			}
-			if !found {
-				return &ValidationError{
-					FieldName: field.GetFullName(),
-					Message:   "value does not match any radio button option",
-					Value:     value,
-				}
-			}
+	if off, ok := value.(bool); (ok && !off) || value == "Off" {
+		return nil
+	}
+	if !field.hasOption(value) {
+		return &ValidationError{
+			FieldName: field.GetFullName(),
+			Message:   "value does not match any radio button option",
+			Value:     value,
 		}
 	}
-
 	return nil
 }
 
@@ -126,39 +128,27 @@ func validateChoiceField(field *Field, value interface{}) error {
 	if len(field.Opt) == 0 {
 		return nil // No options to validate against
 	}
-
-	valueStr := fmt.Sprintf("%v", value)
-
-	// Check if value is in options
-	found := false
-	for _, opt := range field.Opt {
-		optStr := fmt.Sprintf("%v", opt)
-		if optStr == valueStr {
-			found = true
-			break
-		}
+	if (field.Ff&flagCombo) != 0 && (field.Ff&flagEdit) != 0 {
+		return nil // An editable combo box takes any text
 	}
 
-	if !found {
-		return &ValidationError{
-			FieldName: field.GetFullName(),
-			Message:   "value is not in the list of valid options",
-			Value:     value,
+	// Every selected value must be an option
+	var selected []interface{}
+	switch v := value.(type) {
+	case []interface{}:
+		selected = v
+	case []string:
+		for _, item := range v {
+			selected = append(selected, item)
 		}
+	default:
+		selected = []interface{}{value}
 	}
-
-	return nil
-}
-
-// validateSignatureField validates a signature field
-func validateSignatureField(field *Field, value interface{}) error {
-	// Signature fields typically contain signature dictionaries or certificate data
-	// For now, just check it's not empty if required
-	if value == nil || value == "" {
-		if (field.Ff & 0x2) != 0 { // Required
+	for _, item := range selected {
+		if !field.hasOption(item) {
 			return &ValidationError{
 				FieldName: field.GetFullName(),
-				Message:   "signature field is required",
+				Message:   "value is not in the list of valid options",
 				Value:     value,
 			}
 		}
@@ -167,61 +157,75 @@ func validateSignatureField(field *Field, value interface{}) error {
 	return nil
 }
 
+// hasOption tells whether a value is what one of the field's options stores
+func (f *Field) hasOption(value interface{}) bool {
+	valueStr := fmt.Sprintf("%v", value)
+	for _, opt := range f.Opt {
+		if stored, _ := optionValues(opt); stored == valueStr {
+			return true
+		}
+	}
+	return false
+}
+
+// sortedNames returns the names form data has values for, in a fixed order
+func sortedNames(formData types.FormData) []string {
+	names := make([]string, 0, len(formData))
+	for name := range formData {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // ValidateFormData validates all fields in form data against the AcroForm
 func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	var errors []error
+	given := make(map[*Field]bool)
 
-	for fieldName, value := range formData {
+	for _, fieldName := range sortedNames(formData) {
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			errors = append(errors, fmt.Errorf("field '%s' not found in form", fieldName))
 			continue
 		}
+		given[field] = true
 
-		if err := ValidateField(field, value); err != nil {
+		if err := ValidateField(field, formData[fieldName]); err != nil {
 			errors = append(errors, err)
 		}
 	}
 
-	// Check for missing required fields
-	for _, field := range acroForm.Fields {
-		if (field.Ff & 0x2) != 0 { // Required flag
-			fieldName := field.GetFullName()
-			if _, found := formData[fieldName]; !found {
-				errors = append(errors, &ValidationError{
-					FieldName: fieldName,
-					Message:   "required field is missing",
-					Value:     nil,
-				})
-			}
-		}
-
-		// Check child fields too
-		for _, kid := range field.Kids {
-			if (kid.Ff & 0x2) != 0 {
-				kidName := kid.GetFullName()
-				if _, found := formData[kidName]; !found {
-					errors = append(errors, &ValidationError{
-						FieldName: kidName,
-						Message:   "required field is missing",
-						Value:     nil,
-					})
-				}
-			}
+	// Check for missing required fields at any depth
+	walk(acroForm.Fields, func(field *Field) {
+		if (field.Ff&0x2) != 0 && field.isTerminal() && !given[field] {
+			errors = append(errors, &ValidationError{
+				FieldName: field.GetFullName(),
+				Message:   "required field is missing",
+				Value:     nil,
+			})
 		}
-	}
+	})
 
 	return errors
 }
 
 // ValidateFieldValue validates a field value using FormSchema validation rules
 func ValidateFieldValue(question *types.Question, value interface{}) error {
+	if isEmptyValue(value) && question.Required {
+		return &ValidationError{
+			FieldName: question.Name,
+			Message:   "field is required",
+			Value:     value,
+		}
+	}
 	if question.Validation == nil {
 		return nil
 	}
 
 	valueStr := ""
 	switch v := value.(type) {
+	case nil:
 	case string:
 		valueStr = v
 	case int:
@@ -233,7 +237,8 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check min length
-	if question.Validation.MinLength != nil && len(valueStr) < *question.Validation.MinLength {
+	length := utf8.RuneCountInString(valueStr)
+	if question.Validation.MinLength != nil && length < *question.Validation.MinLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too short (minimum %d characters)", *question.Validation.MinLength),
@@ -242,7 +247,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check max length
-	if question.Validation.MaxLength != nil && len(valueStr) > *question.Validation.MaxLength {
+	if question.Validation.MaxLength != nil && length > *question.Validation.MaxLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too long (maximum %d characters)", *question.Validation.MaxLength),
@@ -305,14 +310,14 @@ func ValidateFormSchema(schema *types.FormSchema, formData types.FormData) []err
 	}
 
 	// Validate provided values
-	for fieldName, value := range formData {
+	for _, fieldName := range sortedNames(formData) {
 		question, found := questionsByName[fieldName]
 		if !found {
 			errors = append(errors, fmt.Errorf("field '%s' not found in schema", fieldName))
 			continue
 		}
 
-		if err := ValidateFieldValue(question, value); err != nil {
+		if err := ValidateFieldValue(question, formData[fieldName]); err != nil {
 			errors = append(errors, err)
 		}
 	}
-- 
2.43.0


From 491c203e9296c247db729e38af80075e1a993f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:39 +0000
Subject: [PATCH 18/28] fix: extracted lines say where they are

---
 content/extract/content_stream.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index 2ad66ec..ee9871c 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -90,6 +90,7 @@ func (in *interpreter) run(content []byte, res *resourceSet, gs graphicsState, d
 	var stack []graphicsState
 	lineMatrix := identity
 	var operands [][]byte
+	var origin, point types.Point // where the subpath starts, and has got to
 
 	// num returns the operand at position i of the last n.
 	num := func(n, i int) float64 {
@@ -205,7 +206,16 @@ func (in *interpreter) run(content []byte, res *resourceSet, gs graphicsState, d
 			show(decodeTextOperand(last(), gs.decoder))
 
 		// Paths
+		case "m":
+			origin = types.Point{X: num(2, 0), Y: num(2, 1)}
+			point = origin
+		case "c", "v", "y":
+			point = types.Point{X: num(2, 0), Y: num(2, 1)}
+		case "h":
+			point = origin
 		case "re":
+			origin = types.Point{X: num(4, 0), Y: num(4, 1)}
+			point = origin
 			in.graphics = append(in.graphics, types.Graphic{
 				Type:        types.GraphicTypeRectangle,
 				FillColor:   gs.fillColor,
@@ -214,10 +224,21 @@ func (in *interpreter) run(content []byte, res *resourceSet, gs graphicsState, d
 				BoundingBox: boundingBox(gs.ctm, num(4, 0), num(4, 1), num(4, 2), num(4, 3)),
 			})
 		case "l":
+			from := transformed(gs.ctm, point)
+			point = types.Point{X: num(2, 0), Y: num(2, 1)}
+			to := transformed(gs.ctm, point)
 			in.graphics = append(in.graphics, types.Graphic{
-				Type:        types.GraphicTypeLine,
+				Type: types.GraphicTypeLine,
+				Path: &types.Path{Operations: []types.PathOperation{
+					{Type: types.PathOpMove, Points: []types.Point{from}},
+					{Type: types.PathOpLine, Points: []types.Point{to}},
+				}},
 				StrokeColor: gs.strokeColor,
 				LineWidth:   gs.lineWidth,
+				BoundingBox: &types.Rectangle{
+					LowerX: math.Min(from.X, to.X), LowerY: math.Min(from.Y, to.Y),
+					UpperX: math.Max(from.X, to.X), UpperY: math.Max(from.Y, to.Y),
+				},
 			})
 
 		// XObjects and inline images
@@ -235,7 +256,7 @@ func (in *interpreter) run(content []byte, res *resourceSet, gs graphicsState, d
 var operandCount = map[string]int{
 	"cm": 6, "w": 1, "rg": 3, "RG": 3, "g": 1, "G": 1, "k": 4, "K": 4,
 	"Tf": 2, "Tc": 1, "Tw": 1, "TL": 1, "Ts": 1, "Td": 2, "TD": 2, "Tm": 6,
-	"Tj": 1, "TJ": 1, "'": 1, "\"": 3, "re": 4, "l": 2, "Do": 1,
+	"Tj": 1, "TJ": 1, "'": 1, "\"": 3, "re": 4, "m": 2, "l": 2, "c": 6, "v": 4, "y": 4, "Do": 1,
 }
 
 // isOperand reports whether a token that starts with c is an operand.
@@ -312,6 +333,12 @@ func cmyk(m matrix) *types.Color {
 	return &types.Color{Space: types.ColorSpaceCMYK, C: m[0], M: m[1], Y: m[2], K: m[3]}
 }
 
+// transformed returns the point m takes p to.
+func transformed(m matrix, p types.Point) types.Point {
+	x, y := m.apply(p.X, p.Y)
+	return types.Point{X: x, Y: y}
+}
+
 // boundingBox returns the box around a transformed rectangle.
 func boundingBox(m matrix, x, y, w, h float64) *types.Rectangle {
 	box := &types.Rectangle{LowerX: math.Inf(1), LowerY: math.Inf(1), UpperX: math.Inf(-1), UpperY: math.Inf(-1)}
-- 
2.43.0


From 272e91ccb1fa01bbbb38be186e2d2e3bea6d2261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:39 +0000
Subject: [PATCH 19/28] fix: compare pages by what they say: count repeats,
 look at images, annotations and metadata, honour the options

---
 content/extract/images.go |  36 ++++
 core/compare/compare.go   | 419 ++++++++++++++++++++------------------
 core/compare/report.go    |  43 +++-
 core/compare/text_diff.go |  76 +++----
 4 files changed, 326 insertions(+), 248 deletions(-)

diff --git a/content/extract/images.go b/content/extract/images.go
index 833bc06..77c7861 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -111,3 +111,39 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	}
 	return allImages, nil
 }
+
+// ExtractPageImages extracts the images of each page with binary data, by the
+// ID image references name them with
+func ExtractPageImages(pdfBytes []byte, password []byte, verbose bool) ([]map[string]*types.Image, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
+	}
+
+	nodes, err := pageNodes(pdf, verbose)
+	if err != nil {
+		return nil, fmt.Errorf("failed to extract pages: %w", err)
+	}
+
+	pageImages := make([]map[string]*types.Image, len(nodes))
+	extracted := make(map[string]*types.Image) // Resource name and object number
+	for i, node := range nodes {
+		pageImages[i] = make(map[string]*types.Image)
+		for _, entry := range namedResources(node.attribute(pdf, "Resources"), "XObject", pdf) {
+			if lookupName(pdf, entry.value, "Subtype") != "/Image" {
+				continue
+			}
+			key := fmt.Sprintf("%d %s", entry.objNum, entry.name)
+			image, ok := extracted[key]
+			if !ok || entry.objNum == 0 {
+				image = extractImageData(entry.value, "/"+entry.name, pdf, verbose)
+				extracted[key] = image
+			}
+			pageImages[i]["/"+entry.name] = image
+		}
+	}
+	return pageImages, nil
+}
diff --git a/core/compare/compare.go b/core/compare/compare.go
index cff114e..425b380 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -4,8 +4,10 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/content/extract"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/forms"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -69,6 +71,8 @@ type MetadataDifference struct {
 	PDFVersion   *FieldDiff `json:"pdf_version,omitempty"`
 	PageCount    *FieldDiff `json:"page_count,omitempty"`
 	Encrypted    *FieldDiff `json:"encrypted,omitempty"`
+
+	Custom map[string]*FieldDiff `json:"custom,omitempty"` // Differing entries of the custom metadata
 }
 
 // FieldDiff represents a difference in a single field
@@ -204,7 +208,9 @@ func DefaultCompareOptions() CompareOptions {
 
 // ComparePDFs compares two PDFs and returns a detailed comparison result
 func ComparePDFs(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbose bool) (*ComparisonResult, error) {
-	return ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes, password1, password2, DefaultCompareOptions())
+	opts := DefaultCompareOptions()
+	opts.Verbose = verbose
+	return ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes, password1, password2, opts)
 }
 
 // ComparePDFsWithOptions compares two PDFs with custom options
@@ -241,8 +247,16 @@ func ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes []byte, password1, password2 []
 		result.Summary.TotalDifferences++
 	}
 
-	// Compare pages
-	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, pdf1Bytes, pdf2Bytes)
+	// Compare pages, with the binary data of their images
+	images1, err := extract.ExtractPageImages(pdf1Bytes, password1, opts.Verbose)
+	if err != nil && opts.Verbose {
+		fmt.Printf("Warning: failed to extract images from first PDF: %v\n", err)
+	}
+	images2, err := extract.ExtractPageImages(pdf2Bytes, password2, opts.Verbose)
+	if err != nil && opts.Verbose {
+		fmt.Printf("Warning: failed to extract images from second PDF: %v\n", err)
+	}
+	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, images1, images2)
 	if len(pageDiffs) > 0 {
 		result.PageDiffs = pageDiffs
 		result.Summary.PagesChanged = true
@@ -341,6 +355,27 @@ func compareMetadata(m1, m2 *types.DocumentMetadata, opts CompareOptions) *Metad
 		diff.Encrypted = &FieldDiff{OldValue: m1.Encrypted, NewValue: m2.Encrypted}
 		hasDiff = true
 	}
+	for _, names := range []map[string]string{m1.Custom, m2.Custom} {
+		for name := range names {
+			value1, in1 := m1.Custom[name]
+			value2, in2 := m2.Custom[name]
+			if in1 == in2 && value1 == value2 {
+				continue
+			}
+			field := &FieldDiff{}
+			if in1 {
+				field.OldValue = value1
+			}
+			if in2 {
+				field.NewValue = value2
+			}
+			if diff.Custom == nil {
+				diff.Custom = make(map[string]*FieldDiff)
+			}
+			diff.Custom[name] = field
+			hasDiff = true
+		}
+	}
 
 	if !hasDiff {
 		return nil
@@ -372,7 +407,7 @@ func compareStructure(doc1, doc2 *types.ContentDocument) *StructureDifference {
 }
 
 // comparePages compares pages between two documents
-func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) []PageDifference {
+func comparePages(pages1, pages2 []types.Page, opts CompareOptions, images1, images2 []map[string]*types.Image) []PageDifference {
 	var diffs []PageDifference
 
 	// Compare up to the minimum page count
@@ -382,7 +417,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 	}
 
 	for i := 0; i < minPages; i++ {
-		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, pdf1Bytes, pdf2Bytes)
+		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, pageImages(images1, i), pageImages(images2, i))
 		if pageDiff != nil && (len(pageDiff.Differences) > 0 || pageDiff.TextDiff != nil || pageDiff.GraphicDiff != nil || pageDiff.ImageDiff != nil || pageDiff.AnnotationDiff != nil) {
 			diffs = append(diffs, *pageDiff)
 		}
@@ -418,8 +453,16 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 	return diffs
 }
 
+// pageImages returns the images of a page by resource name
+func pageImages(images []map[string]*types.Image, page int) map[string]*types.Image {
+	if page >= len(images) {
+		return nil
+	}
+	return images[page]
+}
+
 // compareSinglePage compares a single page between two documents
-func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) *PageDifference {
+func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, images1, images2 map[string]*types.Image) *PageDifference {
 	diff := &PageDifference{
 		PageNumber:  pageNum,
 		Differences: []Difference{},
@@ -462,7 +505,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare graphics
-	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics)
+	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics, opts.GraphicTolerance)
 	if graphicDiff != nil && (len(graphicDiff.Added) > 0 || len(graphicDiff.Removed) > 0) {
 		diff.GraphicDiff = graphicDiff
 		diff.Differences = append(diff.Differences, Difference{
@@ -474,7 +517,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare images (with binary data comparison)
-	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, page1.Resources, page2.Resources, pdf1Bytes, pdf2Bytes)
+	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, images1, images2, opts.GraphicTolerance)
 	if imageDiff != nil && (len(imageDiff.Added) > 0 || len(imageDiff.Removed) > 0 || len(imageDiff.Modified) > 0 || len(imageDiff.Moved) > 0) {
 		diff.ImageDiff = imageDiff
 		desc := fmt.Sprintf("Images changed: %d added, %d removed, %d modified", len(imageDiff.Added), len(imageDiff.Removed), len(imageDiff.Modified))
@@ -532,7 +575,7 @@ func textElementsEqual(t1, t2 types.TextElement) bool {
 
 // positionsMatch checks if two positions match within tolerance
 func positionsMatch(x1, y1, x2, y2, tolerance float64) bool {
-	return abs(x1-x2) < tolerance && abs(y1-y2) < tolerance
+	return abs(x1-x2) <= tolerance && abs(y1-y2) <= tolerance
 }
 
 // abs returns absolute value
@@ -543,33 +586,31 @@ func abs(x float64) float64 {
 	return x
 }
 
-// compareGraphics compares graphics between two pages
-func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
+// compareGraphics compares graphics between two pages, each graphic matching at
+// most one of the other page
+func compareGraphics(g1, g2 []types.Graphic, tolerance float64) *GraphicDiff {
 	diff := &GraphicDiff{
 		Added:   []types.Graphic{},
 		Removed: []types.Graphic{},
 	}
 
-	// Simple comparison: compare by type and approximate position
-	// More sophisticated matching could use shape matching
-	g1Map := make(map[string]types.Graphic)
-	for _, g := range g1 {
-		key := graphicKey(g)
-		g1Map[key] = g
-	}
-
-	for _, g := range g2 {
-		key := graphicKey(g)
-		if _, exists := g1Map[key]; !exists {
-			diff.Added = append(diff.Added, g)
-		} else {
-			delete(g1Map, key)
+	matched := make([]bool, len(g1))
+	for _, new := range g2 {
+		found := false
+		for i, old := range g1 {
+			if !matched[i] && graphicsEqual(old, new, tolerance) {
+				matched[i], found = true, true
+				break
+			}
+		}
+		if !found {
+			diff.Added = append(diff.Added, new)
 		}
 	}
-
-	// Remaining in g1Map are removed
-	for _, g := range g1Map {
-		diff.Removed = append(diff.Removed, g)
+	for i, old := range g1 {
+		if !matched[i] {
+			diff.Removed = append(diff.Removed, old)
+		}
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
@@ -579,17 +620,44 @@ func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
 	return diff
 }
 
-// graphicKey generates a key for a graphic element for comparison
-func graphicKey(g types.Graphic) string {
-	// Use type and bounding box for key
-	if g.BoundingBox != nil {
-		return fmt.Sprintf("%s:%.1f:%.1f:%.1f:%.1f", g.Type, g.BoundingBox.LowerX, g.BoundingBox.LowerY, g.BoundingBox.UpperX, g.BoundingBox.UpperY)
+// graphicsEqual compares graphics by type, place, outline and look
+func graphicsEqual(g1, g2 types.Graphic, tolerance float64) bool {
+	if g1.Type != g2.Type || g1.LineWidth != g2.LineWidth ||
+		!reflect.DeepEqual(g1.FillColor, g2.FillColor) || !reflect.DeepEqual(g1.StrokeColor, g2.StrokeColor) ||
+		!rectanglesMatch(g1.BoundingBox, g2.BoundingBox, tolerance) {
+		return false
+	}
+	if g1.Path == nil || g2.Path == nil {
+		return g1.Path == g2.Path
+	}
+	if len(g1.Path.Operations) != len(g2.Path.Operations) {
+		return false
+	}
+	for i, op1 := range g1.Path.Operations {
+		op2 := g2.Path.Operations[i]
+		if op1.Type != op2.Type || len(op1.Points) != len(op2.Points) {
+			return false
+		}
+		for j, point := range op1.Points {
+			if !positionsMatch(point.X, point.Y, op2.Points[j].X, op2.Points[j].Y, tolerance) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
+// rectanglesMatch checks if the corners of two rectangles match within tolerance
+func rectanglesMatch(r1, r2 *types.Rectangle, tolerance float64) bool {
+	if r1 == nil || r2 == nil {
+		return r1 == r2
 	}
-	return fmt.Sprintf("%s", g.Type)
+	return positionsMatch(r1.LowerX, r1.LowerY, r2.LowerX, r2.LowerY, tolerance) &&
+		positionsMatch(r1.UpperX, r1.UpperY, r2.UpperX, r2.UpperY, tolerance)
 }
 
 // compareImagesWithBinary compares images between two pages, including binary data
-func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2 *types.PageResources, pdf1Bytes, pdf2Bytes []byte) *ImageDiff {
+func compareImagesWithBinary(img1, img2 []types.ImageRef, images1Map, images2Map map[string]*types.Image, tolerance float64) *ImageDiff {
 	diff := &ImageDiff{
 		Added:    []types.ImageRef{},
 		Removed:  []types.ImageRef{},
@@ -597,120 +665,61 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 		Moved:    []ImageModification{},
 	}
 
-	// Extract full image data for all images
-	images1Map := make(map[string]*types.Image) // Map ImageID -> full Image data
-	images2Map := make(map[string]*types.Image)
-
-	// Extract images from PDF1
-	if resources1 != nil {
-		for name, img := range resources1.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf1Bytes, &img)
-			if err == nil {
-				images1Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images1Map[imageID] = &img
-			}
-		}
-	}
-
-	// Extract images from PDF2
-	if resources2 != nil {
-		for name, img := range resources2.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf2Bytes, &img)
-			if err == nil {
-				images2Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images2Map[imageID] = &img
-			}
-		}
-	}
-
 	// Compare by image ID and position (with tolerance for position)
 	img1Matched := make(map[int]bool)
 	img2Matched := make(map[int]bool)
 
-	// First pass: exact matches (same ID, position, and binary data)
-	for i1, imgRef1 := range img1 {
-		if img1Matched[i1] {
-			continue
-		}
-		for i2, imgRef2 := range img2 {
-			if img2Matched[i2] {
+	match := func(fits func(ref1, ref2 types.ImageRef, data1, data2 *types.Image) bool, changes *[]ImageModification) {
+		for i1, imgRef1 := range img1 {
+			if img1Matched[i1] {
 				continue
 			}
-			if imgRef1.ImageID == imgRef2.ImageID && positionsMatch(imgRef1.X, imgRef1.Y, imgRef2.X, imgRef2.Y, 1.0) {
-				// Same ID and position - check binary data
-				img1Data := images1Map[imgRef1.ImageID]
-				img2Data := images2Map[imgRef2.ImageID]
-				if img1Data != nil && img2Data != nil {
-					if imagesEqual(img1Data, img2Data) {
-						// Exact match including binary
-						img1Matched[i1] = true
-						img2Matched[i2] = true
-						break
-					} else {
-						// Same ID/position but different binary - mark as modified
-						diff.Modified = append(diff.Modified, ImageModification{
-							Old:      imgRef1,
-							New:      imgRef2,
-							OldImage: img1Data,
-							NewImage: img2Data,
-						})
-						img1Matched[i1] = true
-						img2Matched[i2] = true
-						break
-					}
-				} else {
-					// Can't compare binary (missing data) - treat as match for now
-					img1Matched[i1] = true
-					img2Matched[i2] = true
-					break
+			for i2, imgRef2 := range img2 {
+				if img2Matched[i2] {
+					continue
+				}
+				img1Data, img2Data := images1Map[imgRef1.ImageID], images2Map[imgRef2.ImageID]
+				if !fits(imgRef1, imgRef2, img1Data, img2Data) {
+					continue
+				}
+				img1Matched[i1] = true
+				img2Matched[i2] = true
+				if changes != nil {
+					*changes = append(*changes, ImageModification{
+						Old:      imgRef1,
+						New:      imgRef2,
+						OldImage: img1Data,
+						NewImage: img2Data,
+					})
 				}
+				break
 			}
 		}
 	}
+	samePlace := func(ref1, ref2 types.ImageRef) bool {
+		return positionsMatch(ref1.X, ref1.Y, ref2.X, ref2.Y, tolerance) &&
+			positionsMatch(ref1.Width, ref1.Height, ref2.Width, ref2.Height, tolerance)
+	}
 
-	// Second pass: find moved images (same binary data, different position)
-	// This handles cases where the same image is moved to a different position
-	for i1, imgRef1 := range img1 {
-		if img1Matched[i1] {
-			continue
-		}
-		img1Data := images1Map[imgRef1.ImageID]
-		if img1Data == nil || len(img1Data.Data) == 0 {
-			continue // Can't match by binary without data
+	// First pass: exact matches (same place, and same binary data or, where
+	// there is none to compare, same ID)
+	match(func(ref1, ref2 types.ImageRef, data1, data2 *types.Image) bool {
+		if data1 == nil || data2 == nil {
+			return ref1.ImageID == ref2.ImageID && samePlace(ref1, ref2)
 		}
+		return samePlace(ref1, ref2) && imagesEqual(data1, data2)
+	}, nil)
 
-		for i2, imgRef2 := range img2 {
-			if img2Matched[i2] {
-				continue
-			}
-			img2Data := images2Map[imgRef2.ImageID]
-			if img2Data == nil || len(img2Data.Data) == 0 {
-				continue
-			}
+	// Second pass: modified images (same ID and position, different binary data)
+	match(func(ref1, ref2 types.ImageRef, data1, data2 *types.Image) bool {
+		return ref1.ImageID == ref2.ImageID && positionsMatch(ref1.X, ref1.Y, ref2.X, ref2.Y, tolerance) &&
+			data1 != nil && data2 != nil && !imagesEqual(data1, data2)
+	}, &diff.Modified)
 
-			// Check if binary data matches (ignoring position)
-			if imagesEqual(img1Data, img2Data) {
-				// Same binary data but different position - it's a move
-				diff.Moved = append(diff.Moved, ImageModification{
-					Old:      imgRef1,
-					New:      imgRef2,
-					OldImage: img1Data,
-					NewImage: img2Data,
-				})
-				img1Matched[i1] = true
-				img2Matched[i2] = true
-				break
-			}
-		}
-	}
+	// Third pass: moved images (same binary data, different place)
+	match(func(ref1, ref2 types.ImageRef, data1, data2 *types.Image) bool {
+		return data1 != nil && data2 != nil && len(data1.Data) > 0 && len(data2.Data) > 0 && imagesEqual(data1, data2)
+	}, &diff.Moved)
 
 	// Find added (in img2 but not matched)
 	for i2, img2 := range img2 {
@@ -733,33 +742,6 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 	return diff
 }
 
-// getImageWithBinary extracts full image data with binary from PDF
-func getImageWithBinary(imageID string, pdfBytes []byte, metadataImg *types.Image) (*types.Image, error) {
-	// If metadata image already has data, use it
-	if metadataImg != nil && len(metadataImg.Data) > 0 {
-		return metadataImg, nil
-	}
-
-	// Otherwise, extract all images and find the one we need
-	allImages, err := extract.ExtractAllImages(pdfBytes, nil, false)
-	if err != nil {
-		return nil, err
-	}
-
-	// Find image by ID
-	for _, img := range allImages {
-		if img.ID == imageID {
-			return &img, nil
-		}
-	}
-
-	// Not found - return metadata-only image
-	if metadataImg != nil {
-		return metadataImg, nil
-	}
-	return nil, fmt.Errorf("image %s not found", imageID)
-}
-
 // imagesEqual compares two images for binary equality
 func imagesEqual(img1, img2 *types.Image) bool {
 	if img1 == nil || img2 == nil {
@@ -770,7 +752,7 @@ func imagesEqual(img1, img2 *types.Image) bool {
 	if img1.Width != img2.Width || img1.Height != img2.Height {
 		return false
 	}
-	if img1.Format != img2.Format {
+	if img1.BitsPerComponent != img2.BitsPerComponent {
 		return false
 	}
 	if img1.ColorSpace != img2.ColorSpace {
@@ -790,32 +772,31 @@ func imagesEqual(img1, img2 *types.Image) bool {
 	return bytes.Equal(img1.Data, img2.Data)
 }
 
-// compareAnnotations compares annotations between two pages
+// compareAnnotations compares annotations between two pages, each annotation
+// matching at most one of the other page
 func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 	diff := &AnnotationDiff{
 		Added:   []types.Annotation{},
 		Removed: []types.Annotation{},
 	}
 
-	// Compare by type and position
-	a1Map := make(map[string]types.Annotation)
-	for _, a := range a1 {
-		key := annotationKey(a)
-		a1Map[key] = a
-	}
-
-	for _, a := range a2 {
-		key := annotationKey(a)
-		if _, exists := a1Map[key]; !exists {
-			diff.Added = append(diff.Added, a)
-		} else {
-			delete(a1Map, key)
+	matched := make([]bool, len(a1))
+	for _, new := range a2 {
+		found := false
+		for i, old := range a1 {
+			if !matched[i] && annotationsEqual(old, new) {
+				matched[i], found = true, true
+				break
+			}
+		}
+		if !found {
+			diff.Added = append(diff.Added, new)
 		}
 	}
-
-	// Remaining in a1Map are removed
-	for _, a := range a1Map {
-		diff.Removed = append(diff.Removed, a)
+	for i, old := range a1 {
+		if !matched[i] {
+			diff.Removed = append(diff.Removed, old)
+		}
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
@@ -825,12 +806,26 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 	return diff
 }
 
-// annotationKey generates a key for an annotation for comparison
-func annotationKey(a types.Annotation) string {
-	if a.Rect != nil {
-		return fmt.Sprintf("%s:%.1f:%.1f:%.1f:%.1f", a.Type, a.Rect.LowerX, a.Rect.LowerY, a.Rect.UpperX, a.Rect.UpperY)
+// annotationsEqual compares annotations by type, place, what they say and where
+// they lead
+func annotationsEqual(a1, a2 types.Annotation) bool {
+	return a1.Type == a2.Type && rectanglesMatch(a1.Rect, a2.Rect, 0.1) &&
+		a1.Contents == a2.Contents && a1.Title == a2.Title && a1.Subject == a2.Subject &&
+		a1.URI == a2.URI && destinationView(a1.Destination) == destinationView(a2.Destination) &&
+		reflect.DeepEqual(a1.Color, a2.Color)
+}
+
+// destinationView returns a destination without the number of the page object
+// it starts with, which says nothing about another document
+func destinationView(destination string) string {
+	elements, ok := syntax.Array([]byte(destination))
+	if !ok || len(elements) == 0 {
+		return destination
 	}
-	return fmt.Sprintf("%s", a.Type)
+	if _, _, ok := syntax.Ref(elements[0]); ok {
+		elements = elements[1:]
+	}
+	return "[" + string(bytes.Join(elements, []byte(" "))) + "]"
 }
 
 // compareBookmarks compares bookmarks between two documents
@@ -845,8 +840,7 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 		}
 	}
 
-	// Simple comparison - could be more sophisticated
-	if !reflect.DeepEqual(b1, b2) {
+	if !bookmarksEqual(b1, b2) {
 		return &Difference{
 			Type:        DifferenceTypeBookmark,
 			Category:    "modified",
@@ -857,6 +851,32 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	return nil
 }
 
+// bookmarksEqual compares bookmark trees
+func bookmarksEqual(b1, b2 []types.Bookmark) bool {
+	if len(b1) != len(b2) {
+		return false
+	}
+	for i := range b1 {
+		if b1[i].Title != b2[i].Title || b1[i].PageNumber != b2[i].PageNumber || b1[i].URI != b2[i].URI ||
+			destinationView(b1[i].Destination) != destinationView(b2[i].Destination) ||
+			b1[i].Style != b2[i].Style || !reflect.DeepEqual(b1[i].Color, b2[i].Color) ||
+			!bookmarksEqual(b1[i].Children, b2[i].Children) {
+			return false
+		}
+	}
+	return true
+}
+
+// fieldNames returns the names of form values in a fixed order
+func fieldNames(values types.FormData) []string {
+	names := make([]string, 0, len(values))
+	for name := range values {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // compareForms compares form fields between two PDFs
 func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbose bool) *FormDiff {
 	diff := &FormDiff{
@@ -878,7 +898,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 != nil && err2 == nil {
 		// PDF1 has no form, PDF2 has form - all fields in PDF2 are "added"
 		values2 := form2.GetValues()
-		for name, value := range values2 {
+		for _, name := range fieldNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -890,7 +911,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 == nil && err2 != nil {
 		// PDF1 has form, PDF2 has no form - all fields in PDF1 are "removed"
 		values1 := form1.GetValues()
-		for name, value := range values1 {
+		for _, name := range fieldNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
@@ -908,13 +930,15 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 		// If form types differ, treat all fields as changed
 		values1 := form1.GetValues()
 		values2 := form2.GetValues()
-		for name, value := range values1 {
+		for _, name := range fieldNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
 			})
 		}
-		for name, value := range values2 {
+		for _, name := range fieldNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -929,7 +953,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 
 	// Find added, removed, and modified fields
 	// Fields in PDF2 but not in PDF1
-	for name, value := range values2 {
+	for _, name := range fieldNames(values2) {
+		value := values2[name]
 		if _, exists := values1[name]; !exists {
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
@@ -939,7 +964,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in PDF1 but not in PDF2
-	for name, value := range values1 {
+	for _, name := range fieldNames(values1) {
+		value := values1[name]
 		if _, exists := values2[name]; !exists {
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
@@ -949,7 +975,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in both - check if values changed
-	for name, value1 := range values1 {
+	for _, name := range fieldNames(values1) {
+		value1 := values1[name]
 		if value2, exists := values2[name]; exists {
 			if !valuesEqual(value1, value2) {
 				diff.Modified = append(diff.Modified, FormFieldChange{
diff --git a/core/compare/report.go b/core/compare/report.go
index 6c2e948..5fb2f2b 100644
--- a/core/compare/report.go
+++ b/core/compare/report.go
@@ -3,6 +3,7 @@ package compare
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -25,14 +26,29 @@ func GenerateReport(result *ComparisonResult) string {
 	if result.MetadataDiff != nil {
 		report.WriteString("Metadata Differences:\n")
 		report.WriteString(strings.Repeat("-", 30) + "\n")
-		if result.MetadataDiff.Title != nil {
-			report.WriteString(fmt.Sprintf("  Title: %v -> %v\n", result.MetadataDiff.Title.OldValue, result.MetadataDiff.Title.NewValue))
+		metadata := func(name string, diff *FieldDiff) {
+			if diff != nil {
+				report.WriteString(fmt.Sprintf("  %s: %v -> %v\n", name, diff.OldValue, diff.NewValue))
+			}
 		}
-		if result.MetadataDiff.Author != nil {
-			report.WriteString(fmt.Sprintf("  Author: %v -> %v\n", result.MetadataDiff.Author.OldValue, result.MetadataDiff.Author.NewValue))
+		metadata("Title", result.MetadataDiff.Title)
+		metadata("Author", result.MetadataDiff.Author)
+		metadata("Subject", result.MetadataDiff.Subject)
+		metadata("Keywords", result.MetadataDiff.Keywords)
+		metadata("Creator", result.MetadataDiff.Creator)
+		metadata("Producer", result.MetadataDiff.Producer)
+		metadata("Creation Date", result.MetadataDiff.CreationDate)
+		metadata("Modification Date", result.MetadataDiff.ModDate)
+		metadata("PDF Version", result.MetadataDiff.PDFVersion)
+		metadata("Page Count", result.MetadataDiff.PageCount)
+		metadata("Encrypted", result.MetadataDiff.Encrypted)
+		names := make([]string, 0, len(result.MetadataDiff.Custom))
+		for name := range result.MetadataDiff.Custom {
+			names = append(names, name)
 		}
-		if result.MetadataDiff.PageCount != nil {
-			report.WriteString(fmt.Sprintf("  Page Count: %v -> %v\n", result.MetadataDiff.PageCount.OldValue, result.MetadataDiff.PageCount.NewValue))
+		sort.Strings(names)
+		for _, name := range names {
+			metadata(name, result.MetadataDiff.Custom[name])
 		}
 		report.WriteString("\n")
 	}
@@ -85,6 +101,12 @@ func GenerateReport(result *ComparisonResult) string {
 				if len(pd.ImageDiff.Removed) > 0 {
 					report.WriteString(fmt.Sprintf("  Images Removed: %d elements\n", len(pd.ImageDiff.Removed)))
 				}
+				if len(pd.ImageDiff.Modified) > 0 {
+					report.WriteString(fmt.Sprintf("  Images Modified: %d elements\n", len(pd.ImageDiff.Modified)))
+				}
+				if len(pd.ImageDiff.Moved) > 0 {
+					report.WriteString(fmt.Sprintf("  Images Moved: %d elements\n", len(pd.ImageDiff.Moved)))
+				}
 			}
 
 			// Annotation differences
@@ -105,6 +127,15 @@ func GenerateReport(result *ComparisonResult) string {
 		report.WriteString("\n")
 	}
 
+	// Bookmark differences
+	for _, d := range result.Differences {
+		if d.Type == DifferenceTypeBookmark {
+			report.WriteString("Bookmark Differences:\n")
+			report.WriteString(strings.Repeat("-", 30) + "\n")
+			report.WriteString(fmt.Sprintf("  %s\n\n", d.Description))
+		}
+	}
+
 	// Form differences
 	if result.FormDiff != nil {
 		report.WriteString("Form Differences:\n")
diff --git a/core/compare/text_diff.go b/core/compare/text_diff.go
index 6444153..236467f 100644
--- a/core/compare/text_diff.go
+++ b/core/compare/text_diff.go
@@ -1,6 +1,8 @@
 package compare
 
 import (
+	"strings"
+
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -35,12 +37,10 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if t1.Text == t2.Text && positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) {
-				if t1.FontName == t2.FontName && abs(t1.FontSize-t2.FontSize) < 0.1 {
-					text1Matched[i1] = true
-					text2Matched[i2] = true
-					break
-				}
+			if elementsEqual(t1, t2, opts) {
+				text1Matched[i1] = true
+				text2Matched[i2] = true
+				break
 			}
 		}
 	}
@@ -54,7 +54,8 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && t1.Text != t2.Text {
+			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) &&
+				normalizeTextForComparison(t1.Text, opts) != normalizeTextForComparison(t2.Text, opts) {
 				diff.Modified = append(diff.Modified, TextModification{Old: t1, New: t2})
 				text1Matched[i1] = true
 				text2Matched[i2] = true
@@ -233,23 +234,10 @@ func myersDiffText(text1, text2 []types.TextElement, opts CompareOptions) *TextD
 func normalizeTextForComparison(text string, opts CompareOptions) string {
 	normalized := text
 	if opts.IgnoreCase {
-		normalized = ""
-		for _, r := range text {
-			if r >= 'A' && r <= 'Z' {
-				normalized += string(r + 32) // to lowercase
-			} else {
-				normalized += string(r)
-			}
-		}
+		normalized = strings.ToLower(text)
 	}
 	if opts.IgnoreWhitespace {
-		result := ""
-		for _, r := range normalized {
-			if r != ' ' && r != '\t' && r != '\n' && r != '\r' {
-				result += string(r)
-			}
-		}
-		normalized = result
+		normalized = strings.Join(strings.Fields(normalized), "")
 	}
 	return normalized
 }
@@ -392,33 +380,29 @@ func applySensitivityFilter(diff *TextDiff, opts CompareOptions) *TextDiff {
 		return nil
 	}
 
-	switch opts.DiffSensitivity {
-	case SensitivityRelaxed:
-		// Only keep significant changes (more than threshold)
-		filtered := &TextDiff{
-			Added:    []types.TextElement{},
-			Removed:  []types.TextElement{},
-			Modified: []TextModification{},
+	// Relaxed sensitivity keeps significant changes only (more than 10%
+	// different); a threshold drops changes below it
+	if opts.DiffSensitivity != SensitivityRelaxed && opts.MinChangeThreshold <= 0 {
+		return diff
+	}
+	filtered := &TextDiff{
+		Added:    diff.Added,
+		Removed:  diff.Removed,
+		Modified: []TextModification{},
+	}
+	for _, mod := range diff.Modified {
+		oldNorm := normalizeTextForComparison(mod.Old.Text, opts)
+		newNorm := normalizeTextForComparison(mod.New.Text, opts)
+		changeRatio := calculateChangeRatio(oldNorm, newNorm)
+		if opts.DiffSensitivity == SensitivityRelaxed && changeRatio <= 0.1 {
+			continue
 		}
-		for _, mod := range diff.Modified {
-			// Only keep if change is significant (e.g., >10% different)
-			oldNorm := normalizeTextForComparison(mod.Old.Text, opts)
-			newNorm := normalizeTextForComparison(mod.New.Text, opts)
-			changeRatio := calculateChangeRatio(oldNorm, newNorm)
-			if changeRatio > 0.1 { // More than 10% change
-				filtered.Modified = append(filtered.Modified, mod)
-			}
+		if changeRatio < opts.MinChangeThreshold {
+			continue
 		}
-		filtered.Added = diff.Added
-		filtered.Removed = diff.Removed
-		return filtered
-	case SensitivityStrict:
-		// Keep all changes
-		return diff
-	default: // SensitivityNormal
-		// Keep all changes (could add filtering for very minor changes)
-		return diff
+		filtered.Modified = append(filtered.Modified, mod)
 	}
+	return filtered
 }
 
 // Helper functions
-- 
2.43.0


From e2323338b028b2d15a1a52f56bfe81c3e16131c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 20/28] fix: read, update and rebuild XFA packets by the
 document's structure

Packets were searched for in the file's bytes, updates were written over the
old stream without regard to filters, encryption or cross-references, values
went into the XML unescaped, and several packets were left out.
---
 core/parse/xfa.go                    | 202 ++++++
 core/write/xfa_builder.go            | 421 +------------
 forms/forms.go                       |  62 +-
 forms/xfa/parse_then_decrypt.go      | 211 -------
 forms/xfa/stream.go                  | 487 +--------------
 forms/xfa/xfa.go                     | 628 +++++++------------
 forms/xfa/xfa_datasets_translator.go | 179 +++---
 forms/xfa/xfa_utils.go               | 878 +--------------------------
 8 files changed, 580 insertions(+), 2488 deletions(-)
 create mode 100644 core/parse/xfa.go
 delete mode 100644 forms/xfa/parse_then_decrypt.go

diff --git a/core/parse/xfa.go b/core/parse/xfa.go
new file mode 100644
index 0000000..cc20ca6
--- /dev/null
+++ b/core/parse/xfa.go
@@ -0,0 +1,202 @@
+package parse
+
+import (
+	"bytes"
+	"compress/zlib"
+	"fmt"
+	"sort"
+	"strconv"
+
+	"github.com/benedoc-inc/pdfer/core/syntax"
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// XFAPacket is an entry of a form's XFA array
+type XFAPacket struct {
+	Name      string // Packet name ("template", "datasets", ...)
+	ObjectNum int    // Stream object that holds the packet
+}
+
+// body returns the body of an object, or nil
+func (p *PDF) body(objNum int) []byte {
+	obj, err := p.GetObject(objNum)
+	if err != nil {
+		return nil
+	}
+	return syntax.Body(obj)
+}
+
+// follow resolves references until it reaches a value. It also returns the
+// object the value is in, or owner for a value that is given directly.
+func (p *PDF) follow(value []byte, owner int) ([]byte, int) {
+	for i := 0; i < 32; i++ {
+		objNum, _, ok := syntax.Ref(value)
+		if !ok {
+			break
+		}
+		value, owner = p.body(objNum), objNum
+	}
+	return value, owner
+}
+
+// xfaArray returns the XFA array of a document's form
+func (p *PDF) xfaArray() ([][]byte, error) {
+	catalog, _ := p.follow([]byte(p.Trailer().RootRef), 0)
+	form, _ := p.follow(syntax.Get(catalog, "AcroForm"), 0)
+	if _, _, ok := syntax.Entries(form); !ok {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
+	}
+	value, _ := p.follow(syntax.Get(form, "XFA"), 0)
+	if len(value) == 0 {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "XFA entry not found in AcroForm")
+	}
+	elements, ok := syntax.Array(value)
+	if !ok {
+		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "XFA is not an array of packets")
+	}
+	return elements, nil
+}
+
+// XFAPackets returns the packets of a document's XFA form, in order
+func (p *PDF) XFAPackets() ([]XFAPacket, error) {
+	elements, err := p.xfaArray()
+	if err != nil {
+		return nil, err
+	}
+	var packets []XFAPacket
+	for i := 0; i+1 < len(elements); i += 2 {
+		nameValue, _ := p.follow(elements[i], 0)
+		name, ok := syntax.TextString(nameValue)
+		objNum, _, isRef := syntax.Ref(elements[i+1])
+		if ok && isRef {
+			packets = append(packets, XFAPacket{Name: name, ObjectNum: objNum})
+		}
+	}
+	return packets, nil
+}
+
+// StreamData returns a stream object's data with its filters undone, and
+// whether it had any
+func (p *PDF) StreamData(objNum int) (data []byte, filtered bool, err error) {
+	dict, raw, ok := syntax.Stream(p.body(objNum))
+	if !ok {
+		return nil, false, types.NewPDFErrorf(types.ErrCodeInvalidObject, "object %d is not a stream", objNum)
+	}
+	data, err = DecodeStream(dict, raw, p.body)
+	return data, len(syntax.Get(dict, "Filter")) > 0, err
+}
+
+// UpdateXFA returns the document with a revision appended in which the given
+// packets of its XFA form have the given contents. Packets the form does not
+// have yet are added.
+func (p *PDF) UpdateXFA(contents map[string][]byte) ([]byte, error) {
+	packets, err := p.XFAPackets()
+	if err != nil {
+		return nil, err
+	}
+	stored := make(map[string]int)
+	for _, packet := range packets {
+		stored[packet.Name] = packet.ObjectNum
+	}
+	changed := make(map[int][]byte)
+	var added []string
+	for name, content := range contents {
+		objNum, ok := stored[name]
+		if !ok {
+			added = append(added, name)
+			continue
+		}
+		dict, _, ok := syntax.Stream(p.body(objNum))
+		if !ok {
+			return nil, types.NewPDFErrorf(types.ErrCodeInvalidForm, "XFA packet %q is not a stream", name)
+		}
+		if changed[objNum], err = xfaStream(dict, content); err != nil {
+			return nil, err
+		}
+	}
+	if len(added) > 0 {
+		sort.Strings(added)
+		if err := p.addXFA(added, contents, changed); err != nil {
+			return nil, err
+		}
+	}
+	return p.Update(changed)
+}
+
+// addXFA puts the objects that adding packets to the form changes into changed
+func (p *PDF) addXFA(names []string, contents map[string][]byte, changed map[int][]byte) error {
+	elements, err := p.xfaArray()
+	if err != nil {
+		return err
+	}
+	next := p.xref.Size
+	for _, objNum := range p.Objects() {
+		if objNum >= next {
+			next = objNum + 1
+		}
+	}
+	end := len(elements)
+	if end >= 2 {
+		nameValue, _ := p.follow(elements[end-2], 0)
+		if name, _ := syntax.TextString(nameValue); name == "postamble" {
+			end -= 2 // the end tag goes with the other packets' start tag
+		}
+	}
+	var array bytes.Buffer
+	array.WriteByte('[')
+	write := func(elements [][]byte) {
+		for _, element := range elements {
+			array.Write(element)
+			array.WriteByte(' ')
+		}
+	}
+	write(elements[:end])
+	for _, name := range names {
+		body, err := xfaStream([]byte("<< >>"), contents[name])
+		if err != nil {
+			return err
+		}
+		changed[next] = body
+		fmt.Fprintf(&array, "%s %d 0 R ", syntax.FormatTextString(name), next)
+		next++
+	}
+	write(elements[end:])
+	array.WriteByte(']')
+
+	// The array is an object of its own, or part of the form's dictionary,
+	// which is an object of its own, or part of the catalog
+	catalog, catalogNum := p.follow([]byte(p.Trailer().RootRef), 0)
+	form, formNum := p.follow(syntax.Get(catalog, "AcroForm"), 0)
+	if _, arrayNum := p.follow(syntax.Get(form, "XFA"), 0); arrayNum > 0 {
+		changed[arrayNum] = array.Bytes()
+		return nil
+	}
+	form = syntax.Set(append([]byte(nil), form...), "XFA", array.Bytes())
+	if formNum > 0 {
+		changed[formNum] = form
+		return nil
+	}
+	changed[catalogNum] = syntax.Set(append([]byte(nil), catalog...), "AcroForm", form)
+	return nil
+}
+
+// xfaStream returns a stream object's body with new, compressed data
+func xfaStream(dict, content []byte) ([]byte, error) {
+	var data bytes.Buffer
+	zw := zlib.NewWriter(&data)
+	if _, err := zw.Write(content); err != nil {
+		return nil, err
+	}
+	if err := zw.Close(); err != nil {
+		return nil, err
+	}
+	dict = append([]byte(nil), dict...)
+	for _, key := range []string{"DecodeParms", "F", "FFilter", "FDecodeParms", "DL"} {
+		dict = syntax.Delete(dict, key)
+	}
+	dict = syntax.Set(dict, "Filter", []byte("/FlateDecode"))
+	dict = syntax.Set(dict, "Length", []byte(strconv.Itoa(data.Len())))
+	body := append(dict, "\nstream\n"...)
+	body = append(body, data.Bytes()...)
+	return append(body, "\nendstream"...), nil
+}
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index c61467d..8588583 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -1,15 +1,12 @@
 package write
 
 import (
-	"bytes"
-	"compress/zlib"
 	"fmt"
 	"log"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -45,7 +42,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 	}
 
 	// Create XFA stream objects
-	var xfaArrayParts []string
+	var xfaArray strings.Builder
 
 	for _, stream := range streams {
 		objNum := b.writer.AddStreamObject(
@@ -56,7 +53,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 		b.xfaStreams[stream.Name] = objNum
 
 		// Add to XFA array: (name) objNum 0 R
-		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", stream.Name, objNum))
+		fmt.Fprintf(&xfaArray, "%s %d 0 R ", syntax.FormatTextString(stream.Name), objNum)
 
 		if b.verbose {
 			log.Printf("Added XFA stream '%s': object %d, %d bytes", stream.Name, objNum, len(stream.Data))
@@ -64,12 +61,16 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 	}
 
 	// Create AcroForm dictionary with XFA array
-	acroFormContent := fmt.Sprintf("<</Fields[]/XFA[%s]>>",
-		joinStrings(xfaArrayParts, ""))
+	acroFormContent := fmt.Sprintf("<</Fields[]/XFA[%s]>>", xfaArray.String())
 	b.acroFormNum = b.writer.AddObject([]byte(acroFormContent))
 
+	// A document has at least one page; the form brings its own layout
+	pagesNum := b.writer.AddObject(nil)
+	pageNum := b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Page/Parent %d 0 R/MediaBox[0 0 612 792]/Resources<<>>>>", pagesNum)))
+	b.writer.SetObject(pagesNum, []byte(fmt.Sprintf("<</Type/Pages/Kids[%d 0 R]/Count 1>>", pageNum)))
+
 	// Create catalog (root) with AcroForm reference
-	catalogContent := fmt.Sprintf("<</Type/Catalog/AcroForm %d 0 R>>", b.acroFormNum)
+	catalogContent := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>", pagesNum, b.acroFormNum)
 	b.catalogNum = b.writer.AddObject([]byte(catalogContent))
 
 	// Set root
@@ -82,407 +83,15 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 	return b.writer.Bytes()
 }
 
-// BuildFromOriginal rebuilds a PDF preserving structure but updating XFA streams
+// BuildFromOriginal returns the original PDF with its XFA streams updated.
+// Streams that its form does not have yet are added.
 func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[string][]byte, encryptInfo *types.PDFEncryption) ([]byte, error) {
 	if b.verbose {
 		log.Printf("Rebuilding PDF with %d updated streams", len(updatedStreams))
 	}
-
-	// Parse the original PDF structure
-	objects, err := parseAllObjects(originalPDF, encryptInfo, b.verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse original PDF: %v", err)
-	}
-
-	if b.verbose {
-		log.Printf("Parsed %d objects from original PDF", len(objects))
-	}
-
-	// Find trailer info
-	rootObjNum, infoObjNum, encryptObjNum, fileID := parseTrailerInfo(originalPDF)
-
-	if b.verbose {
-		log.Printf("Trailer: Root=%d, Info=%d, Encrypt=%d", rootObjNum, infoObjNum, encryptObjNum)
-	}
-
-	// Find XFA stream references in AcroForm
-	xfaStreamMap, err := findXFAStreamMap(originalPDF, encryptInfo, b.verbose)
+	pdf, err := parse.OpenWithOptions(originalPDF, parse.ParseOptions{Encryption: encryptInfo, Verbose: b.verbose})
 	if err != nil {
-		if b.verbose {
-			log.Printf("Warning: could not find XFA stream map: %v", err)
-		}
-	}
-
-	// Update stream objects with new data
-	for streamName, newData := range updatedStreams {
-		if objNum, ok := xfaStreamMap[streamName]; ok {
-			if obj, objOk := objects[objNum]; objOk {
-				// Compress the new data
-				var compressed bytes.Buffer
-				zw := zlib.NewWriter(&compressed)
-				zw.Write(newData)
-				zw.Close()
-
-				// Update the object's stream
-				obj.Stream = compressed.Bytes()
-				if obj.Dict == nil {
-					obj.Dict = make(Dictionary)
-				}
-				obj.Dict["Filter"] = "/FlateDecode"
-				obj.Dict["Length"] = len(obj.Stream)
-
-				if b.verbose {
-					log.Printf("Updated stream '%s' (object %d): %d bytes compressed", streamName, objNum, len(obj.Stream))
-				}
-			}
-		}
-	}
-
-	// Add all objects to writer
-	for objNum, obj := range objects {
-		if obj.Stream != nil {
-			b.writer.SetStreamObject(objNum, obj.Dict, obj.Stream, false) // Already compressed
-		} else if obj.Content != nil {
-			b.writer.SetObject(objNum, obj.Content)
-		}
-	}
-
-	// Set trailer references
-	if rootObjNum > 0 {
-		b.writer.SetRoot(rootObjNum)
-	}
-	if infoObjNum > 0 {
-		b.writer.SetInfo(infoObjNum)
-	}
-	if encryptObjNum > 0 && encryptInfo != nil {
-		b.writer.SetEncryptRef(encryptObjNum)
-		b.writer.SetEncryption(encryptInfo, fileID)
-	}
-
-	return b.writer.Bytes()
-}
-
-// parseAllObjects parses all objects from a PDF including those in object streams
-func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[int]*PDFObject, error) {
-	objects := make(map[int]*PDFObject)
-
-	// First, parse direct objects (those with "N G obj" pattern)
-	objPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
-	matches := objPattern.FindAllSubmatchIndex(pdfBytes, -1)
-
-	for _, match := range matches {
-		objNumStr := string(pdfBytes[match[2]:match[3]])
-		genNumStr := string(pdfBytes[match[4]:match[5]])
-
-		objNum, _ := strconv.Atoi(objNumStr)
-		genNum, _ := strconv.Atoi(genNumStr)
-
-		// Find endobj
-		objStart := match[1] // After "obj"
-		endObjPos := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if endObjPos == -1 {
-			continue
-		}
-
-		objContent := pdfBytes[objStart : objStart+endObjPos]
-
-		// Check for stream
-		streamPos := bytes.Index(objContent, []byte("stream"))
-		var streamData []byte
-		var dict Dictionary
-
-		if streamPos != -1 {
-			// Parse dictionary
-			dictContent := objContent[:streamPos]
-			dict = parseDictionary(dictContent)
-
-			// Find stream data
-			streamStart := streamPos + 6
-			// Skip EOL
-			for streamStart < len(objContent) && (objContent[streamStart] == '\r' || objContent[streamStart] == '\n') {
-				streamStart++
-			}
-
-			// Find endstream
-			endstreamPos := bytes.Index(objContent[streamStart:], []byte("endstream"))
-			if endstreamPos == -1 {
-				endstreamPos = len(objContent) - streamStart
-			}
-
-			// Use Length from dictionary if available
-			if length, ok := dict["Length"].(int); ok && streamStart+length <= len(objContent) {
-				streamData = objContent[streamStart : streamStart+length]
-			} else {
-				streamData = objContent[streamStart : streamStart+endstreamPos]
-			}
-		}
-
-		// Trim whitespace from content
-		content := bytes.TrimSpace(objContent)
-		if streamPos != -1 {
-			content = bytes.TrimSpace(objContent[:streamPos])
-		}
-
-		objects[objNum] = &PDFObject{
-			Number:     objNum,
-			Generation: genNum,
-			Content:    content,
-			Stream:     streamData,
-			Dict:       dict,
-		}
-	}
-
-	// Now extract objects from object streams using the parser
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef > 0 {
-		xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, startXRef, false)
-		if err == nil {
-			// Process objects stored in object streams
-			for objNum, entry := range xrefResult.ObjectStreams {
-				if _, exists := objects[objNum]; exists {
-					continue // Already have this object as a direct object
-				}
-
-				// Extract object from the object stream
-				objData, err := parse.GetObjectFromStream(pdfBytes, objNum, entry.StreamObjNum, entry.IndexInStream, encryptInfo, false)
-				if err != nil {
-					if verbose {
-						log.Printf("Warning: failed to extract object %d from stream %d: %v", objNum, entry.StreamObjNum, err)
-					}
-					continue
-				}
-
-				// Parse the extracted object content
-				objects[objNum] = &PDFObject{
-					Number:     objNum,
-					Generation: 0,
-					Content:    bytes.TrimSpace(objData),
-				}
-
-				if verbose {
-					log.Printf("Extracted object %d from object stream %d", objNum, entry.StreamObjNum)
-				}
-			}
-		} else if verbose {
-			log.Printf("Warning: could not parse xref stream: %v", err)
-		}
-	}
-
-	return objects, nil
-}
-
-// findStartXRef finds the startxref position in a PDF
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end of file
-	searchLen := min(1024, len(pdfBytes))
-	tailStart := len(pdfBytes) - searchLen
-	tail := string(pdfBytes[tailStart:])
-
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindStringSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(match[1], 10, 64)
-		if err == nil {
-			return val
-		}
-	}
-	return -1
-}
-
-// parseDictionary parses a PDF dictionary into our Dictionary type
-func parseDictionary(data []byte) Dictionary {
-	dict := make(Dictionary)
-
-	// Simple parsing - extract key-value pairs
-	s := string(data)
-
-	// Remove << and >>
-	s = strings.TrimPrefix(strings.TrimSpace(s), "<<")
-	s = strings.TrimSuffix(strings.TrimSpace(s), ">>")
-
-	// Find /Key Value pairs
-	keyPattern := regexp.MustCompile(`/(\w+)\s*`)
-	matches := keyPattern.FindAllStringSubmatchIndex(s, -1)
-
-	for i, match := range matches {
-		key := s[match[2]:match[3]]
-
-		// Value is from end of key to start of next key (or end)
-		valueStart := match[1]
-		var valueEnd int
-		if i+1 < len(matches) {
-			valueEnd = matches[i+1][0]
-		} else {
-			valueEnd = len(s)
-		}
-
-		value := strings.TrimSpace(s[valueStart:valueEnd])
-
-		// Parse value type
-		if num, err := strconv.Atoi(value); err == nil {
-			dict[key] = num
-		} else {
-			dict[key] = value
-		}
-	}
-
-	return dict
-}
-
-// parseTrailerInfo extracts trailer references
-func parseTrailerInfo(pdfBytes []byte) (rootNum, infoNum, encryptNum int, fileID []byte) {
-	pdfStr := string(pdfBytes)
-
-	// Find Root
-	rootPattern := regexp.MustCompile(`/Root\s+(\d+)\s+\d+\s+R`)
-	if match := rootPattern.FindStringSubmatch(pdfStr); match != nil {
-		rootNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Info
-	infoPattern := regexp.MustCompile(`/Info\s+(\d+)\s+\d+\s+R`)
-	if match := infoPattern.FindStringSubmatch(pdfStr); match != nil {
-		infoNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Encrypt
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+\d+\s+R`)
-	if match := encryptPattern.FindStringSubmatch(pdfStr); match != nil {
-		encryptNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find ID
-	idPattern := regexp.MustCompile(`/ID\s*\[\s*<([0-9A-Fa-f]+)>`)
-	if match := idPattern.FindStringSubmatch(pdfStr); match != nil {
-		fileID, _ = hexDecode(match[1])
-	}
-
-	return
-}
-
-// findXFAStreamMap finds the mapping of XFA stream names to object numbers
-func findXFAStreamMap(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// First find AcroForm reference
-	pdfStr := string(pdfBytes)
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+\d+\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		return findXFAStreamMapInline(pdfBytes)
-	}
-
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return result, fmt.Errorf("invalid AcroForm object number")
-	}
-
-	// Get the AcroForm object using proper parser (handles object streams)
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, false)
-	if err != nil {
-		return result, fmt.Errorf("failed to get AcroForm object: %v", err)
-	}
-
-	// Find XFA array in AcroForm content
-	return parseXFAArrayFromContent(acroFormData, verbose)
-}
-
-// findXFAStreamMapInline finds XFA array when AcroForm is inline
-func findXFAStreamMapInline(pdfBytes []byte) (map[string]int, error) {
-	result := make(map[string]int)
-	pdfStr := string(pdfBytes)
-
-	xfaPattern := regexp.MustCompile(`/XFA\s*\[([^\]]+)\]`)
-	match := xfaPattern.FindStringSubmatch(pdfStr)
-	if match == nil {
-		return result, fmt.Errorf("XFA array not found")
-	}
-
-	return parseXFAArrayContent(match[1])
-}
-
-// parseXFAArrayFromContent parses XFA array from object content
-func parseXFAArrayFromContent(content []byte, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// Find XFA array
-	xfaIdx := bytes.Index(content, []byte("/XFA"))
-	if xfaIdx == -1 {
-		return result, fmt.Errorf("XFA not found in AcroForm")
-	}
-
-	// Find array start
-	arrayStart := bytes.Index(content[xfaIdx:], []byte("["))
-	if arrayStart == -1 {
-		return result, fmt.Errorf("XFA array start not found")
-	}
-	arrayStart += xfaIdx
-
-	// Find array end
-	depth := 0
-	arrayEnd := arrayStart
-	for i := arrayStart; i < len(content); i++ {
-		if content[i] == '[' {
-			depth++
-		} else if content[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEnd = i + 1
-				break
-			}
-		}
-	}
-
-	arrayContent := string(content[arrayStart+1 : arrayEnd-1])
-	if verbose {
-		log.Printf("Found XFA array content: %s", arrayContent)
-	}
-
-	return parseXFAArrayContent(arrayContent)
-}
-
-// parseXFAArrayContent parses XFA array content string
-func parseXFAArrayContent(arrayContent string) (map[string]int, error) {
-	result := make(map[string]int)
-
-	refPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+\d+\s+R`)
-	refs := refPattern.FindAllStringSubmatch(arrayContent, -1)
-
-	for _, ref := range refs {
-		name := ref[1]
-		objNum, _ := strconv.Atoi(ref[2])
-		result[name] = objNum
-	}
-
-	return result, nil
-}
-
-// hexDecode decodes a hex string to bytes
-func hexDecode(s string) ([]byte, error) {
-	if len(s)%2 != 0 {
-		s = "0" + s
-	}
-	result := make([]byte, len(s)/2)
-	for i := 0; i < len(s); i += 2 {
-		b, err := strconv.ParseUint(s[i:i+2], 16, 8)
-		if err != nil {
-			return nil, err
-		}
-		result[i/2] = byte(b)
-	}
-	return result, nil
-}
-
-// joinStrings joins strings without separator
-func joinStrings(parts []string, sep string) string {
-	var buf bytes.Buffer
-	for i, p := range parts {
-		if i > 0 {
-			buf.WriteString(sep)
-		}
-		buf.WriteString(p)
+		return nil, fmt.Errorf("failed to parse original PDF: %w", err)
 	}
-	return buf.String()
+	return pdf.UpdateXFA(updatedStreams)
 }
diff --git a/forms/forms.go b/forms/forms.go
index bd30a45..b095569 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -3,6 +3,9 @@
 package forms
 
 import (
+	"errors"
+
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/forms/acroform"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
@@ -79,18 +82,32 @@ func (w *XFAFormWrapper) Schema() *types.FormSchema {
 }
 
 func (w *XFAFormWrapper) Fill(pdfBytes []byte, data types.FormData, password []byte, verbose bool) ([]byte, error) {
-	// Get encryption info if needed
-	var encryptInfo *types.PDFEncryption
-	if len(password) > 0 || len(w.password) > 0 {
-		pwd := password
-		if len(pwd) == 0 {
-			pwd = w.password
-		}
-		// Parse encryption if PDF is encrypted
-		// For now, use the XFA update function
-		return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
+	if len(password) == 0 {
+		password = w.password
+	}
+	encryptInfo, err := unlock(pdfBytes, password, verbose)
+	if err != nil {
+		return nil, err
+	}
+	return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
+}
+
+// unlock returns the encryption of a PDF, or nil if it is not encrypted
+func unlock(pdfBytes, password []byte, verbose bool) (*types.PDFEncryption, error) {
+	_, encryptInfo, err := encrypt.DecryptPDF(pdfBytes, password, verbose)
+	if errors.Is(err, encrypt.ErrNotEncrypted) {
+		return nil, nil
+	}
+	return encryptInfo, err
+}
+
+// extractXFAStreams extracts the XFA streams of a PDF
+func extractXFAStreams(pdfBytes, password []byte, verbose bool) (*xfa.XFAStreams, error) {
+	encryptInfo, err := unlock(pdfBytes, password, verbose)
+	if err != nil {
+		return nil, err
 	}
-	return xfa.UpdateXFAInPDF(pdfBytes, data, nil, verbose)
+	return xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
 }
 
 func (w *XFAFormWrapper) Validate(data types.FormData) []error {
@@ -100,10 +117,23 @@ func (w *XFAFormWrapper) Validate(data types.FormData) []error {
 }
 
 func (w *XFAFormWrapper) GetValues() map[string]interface{} {
+	values := make(map[string]interface{})
 	if w.datasets != nil {
-		return w.datasets.Fields
+		addValues(values, w.datasets.Fields, w.datasets.Groups)
+	}
+	return values
+}
+
+// addValues adds the values of fields and of those in groups
+func addValues(values, fields map[string]interface{}, groups []types.XFAFieldGroup) {
+	for name, value := range fields {
+		if _, ok := values[name]; !ok {
+			values[name] = value
+		}
+	}
+	for _, group := range groups {
+		addValues(values, group.Fields, group.Groups)
 	}
-	return make(map[string]interface{})
 }
 
 // Detect detects the form type in a PDF
@@ -115,7 +145,7 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		return FormTypeXFA, nil
 	}
@@ -137,7 +167,7 @@ func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		// Parse XFA form
 		formSchema, err := xfa.ParseXFAForm(string(streams.Template.Data), verbose)
@@ -169,7 +199,7 @@ func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*acroform.
 // ExtractXFA extracts XFA form data (type-specific)
 // Returns the FormSchema and Datasets separately
 func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSchema, *types.XFADatasets, error) {
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err != nil {
 		return nil, nil, err
 	}
diff --git a/forms/xfa/parse_then_decrypt.go b/forms/xfa/parse_then_decrypt.go
deleted file mode 100644
index 68c0f60..0000000
--- a/forms/xfa/parse_then_decrypt.go
+++ /dev/null
@@ -1,211 +0,0 @@
-package xfa
-
-import (
-	"bytes"
-	"fmt"
-	"log"
-	"regexp"
-
-	"github.com/benedoc-inc/pdfer/core/encrypt"
-	"github.com/benedoc-inc/pdfer/types"
-)
-
-// parseObjectStructure parses a PDF object structure first, then decrypts encrypted parts
-// This follows PyPDF's approach: parse structure, then decrypt values
-func parseObjectStructure(pdfBytes []byte, objNum, genNum int, objOffset int64, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Step 1: Seek to object location (like PyPDF line 423)
-	if objOffset < 0 || int(objOffset) >= len(pdfBytes) {
-		return nil, fmt.Errorf("invalid object offset: %d", objOffset)
-	}
-
-	// Step 2: Read object header "212 0 obj" (like PyPDF line 425)
-	// PyPDF seeks to xref offset and reads header directly
-	// But if header is encrypted, we need to search for it
-	// Try multiple patterns and search areas
-	headerPatterns := []*regexp.Regexp{
-		regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum)),
-		regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum)),
-		regexp.MustCompile(fmt.Sprintf(`\s%d\s+%d\s+obj`, objNum, genNum)), // With leading space
-	}
-
-	var headerMatch []int
-	var searchStart, searchEnd int
-
-	// Try searching near xref offset first (most common case)
-	searchStart = max(0, int(objOffset)-200)
-	searchEnd = min(len(pdfBytes), int(objOffset)+2000)
-	searchArea := pdfBytes[searchStart:searchEnd]
-
-	for _, pattern := range headerPatterns {
-		headerMatch = pattern.FindIndex(searchArea)
-		if headerMatch != nil {
-			break
-		}
-	}
-
-	// If not found, try wider search
-	if headerMatch == nil {
-		if verbose {
-			log.Printf("Object header not found near offset %d, trying wider search", objOffset)
-		}
-		searchStart = max(0, int(objOffset)-1000)
-		searchEnd = min(len(pdfBytes), int(objOffset)+5000)
-		searchArea = pdfBytes[searchStart:searchEnd]
-
-		for _, pattern := range headerPatterns {
-			headerMatch = pattern.FindIndex(searchArea)
-			if headerMatch != nil {
-				break
-			}
-		}
-	}
-
-	if headerMatch == nil {
-		// Last resort: search entire file (slow but might work)
-		if verbose {
-			log.Printf("Object header not found in search window, searching entire file")
-		}
-		searchArea = pdfBytes
-		for _, pattern := range headerPatterns {
-			headerMatch = pattern.FindIndex(searchArea)
-			if headerMatch != nil {
-				searchStart = 0
-				break
-			}
-		}
-	}
-
-	if headerMatch == nil {
-		return nil, fmt.Errorf("object header %d %d obj not found", objNum, genNum)
-	}
-
-	objStart := searchStart + headerMatch[1] // Position after "obj"
-	if verbose {
-		log.Printf("Found object header at offset %d (absolute: %d)", headerMatch[0], searchStart+headerMatch[0])
-	}
-
-	// Step 3: Parse object structure (like PyPDF's read_object)
-	// Skip whitespace after "obj"
-	pos := objStart
-	for pos < len(pdfBytes) && (pdfBytes[pos] == ' ' || pdfBytes[pos] == '\r' || pdfBytes[pos] == '\n' || pdfBytes[pos] == '\t') {
-		pos++
-	}
-
-	// Check if it's a dictionary (starts with "<<")
-	if pos+2 > len(pdfBytes) || pdfBytes[pos] != '<' || pdfBytes[pos+1] != '<' {
-		return nil, fmt.Errorf("object does not start with dictionary marker <<")
-	}
-
-	// Step 4: Find dictionary end ">>"
-	dictStart := pos
-	depth := 0
-	dictEnd := -1
-	for i := dictStart; i < len(pdfBytes) && i < dictStart+50000; i++ {
-		if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '>' && pdfBytes[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				dictEnd = i + 2
-				break
-			}
-			i++ // Skip second '>'
-		}
-	}
-
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("dictionary end >> not found")
-	}
-
-	// Step 5: Check if there's a stream
-	streamPos := dictEnd
-	// Skip whitespace after ">>"
-	for streamPos < len(pdfBytes) && (pdfBytes[streamPos] == ' ' || pdfBytes[streamPos] == '\r' || pdfBytes[streamPos] == '\n' || pdfBytes[streamPos] == '\t') {
-		streamPos++
-	}
-
-	isStream := false
-	streamDataStart := -1
-	streamDataEnd := -1
-
-	if streamPos+6 <= len(pdfBytes) && bytes.Equal(pdfBytes[streamPos:streamPos+6], []byte("stream")) {
-		isStream = true
-		streamPos += 6
-
-		// Skip EOL after "stream" (PyPDF lines 611-619)
-		if streamPos < len(pdfBytes) {
-			if pdfBytes[streamPos] == '\r' {
-				streamPos++
-				if streamPos < len(pdfBytes) && pdfBytes[streamPos] == '\n' {
-					streamPos++
-				}
-			} else if pdfBytes[streamPos] == '\n' {
-				streamPos++
-			}
-		}
-
-		streamDataStart = streamPos
-
-		// Find "endstream"
-		endstreamPos := bytes.Index(pdfBytes[streamDataStart:], []byte("endstream"))
-		if endstreamPos == -1 {
-			return nil, fmt.Errorf("endstream not found")
-		}
-		streamDataEnd = streamDataStart + endstreamPos
-	}
-
-	// Step 6: Decrypt dictionary content (between "<<" and ">>")
-	// The dictionary structure itself is NOT encrypted, but string values are
-	// For encrypted PDFs, the entire dictionary content between << and >> is encrypted
-	dictContent := pdfBytes[dictStart+2 : dictEnd-2] // Remove "<< " and " >>"
-
-	if encryptInfo != nil && len(dictContent) > 0 {
-		// Try direct decryption first
-		decryptedDict, err := encrypt.DecryptObject(dictContent, objNum, genNum, encryptInfo)
-		if err != nil {
-			if verbose {
-				log.Printf("Direct decryption failed, trying chunked decryption: %v", err)
-			}
-			// Try decrypting in chunks (for alignment) - uses existing function from xfa_utils.go
-			decryptedDict, err = decryptInChunks(dictContent, objNum, genNum, encryptInfo, verbose)
-			if err != nil {
-				return nil, fmt.Errorf("failed to decrypt dictionary: %v", err)
-			}
-		}
-		dictContent = decryptedDict
-	}
-
-	// Step 7: Reconstruct object
-	result := make([]byte, 0, len(dictContent)+1000)
-
-	// Object header
-	result = append(result, []byte(fmt.Sprintf("%d %d obj\n", objNum, genNum))...)
-
-	// Dictionary
-	result = append(result, []byte("<<")...)
-	result = append(result, dictContent...)
-	result = append(result, []byte(">>")...)
-
-	// Stream data (if present) - decrypt it
-	if isStream {
-		result = append(result, []byte("\nstream\n")...)
-
-		if encryptInfo != nil {
-			streamData := pdfBytes[streamDataStart:streamDataEnd]
-			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
-			if err != nil {
-				return nil, fmt.Errorf("failed to decrypt stream data: %v", err)
-			}
-			result = append(result, decryptedStream...)
-		} else {
-			result = append(result, pdfBytes[streamDataStart:streamDataEnd]...)
-		}
-
-		result = append(result, []byte("\nendstream")...)
-	}
-
-	result = append(result, []byte("\nendobj")...)
-
-	return result, nil
-}
diff --git a/forms/xfa/stream.go b/forms/xfa/stream.go
index 6836489..517c2a2 100644
--- a/forms/xfa/stream.go
+++ b/forms/xfa/stream.go
@@ -4,12 +4,10 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"log"
 	"regexp"
 	"strconv"
-	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -217,486 +215,5 @@ func findObjectHeaderByRegex(pdfBytes []byte, objNum, genNum int) (int, error) {
 // ReadObjectFromXRef reads an object using xref offset (PyPDF approach)
 // Matches PyPDF's get_object method (lines 413-490)
 func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Step 1: Create stream and seek to xref offset (PyPDF line 423)
-	stream := NewPDFStream(pdfBytes)
-
-	// Step 2: Try to find object header
-	// The xref offset might point to encrypted content, so we need to search for the header
-	// Per PDF spec, object headers are NOT encrypted, so we should find "212 0 obj" in plaintext
-	if verbose {
-		log.Printf("ReadObjectFromXRef: Looking for object %d %d, xref offset: %d", objNum, genNum, xrefOffset)
-	}
-
-	// First, try reading header at xref offset (PyPDF line 425)
-	_, err := stream.Seek(xrefOffset, 0)
-	if err != nil {
-		return nil, fmt.Errorf("failed to seek to xref offset: %v", err)
-	}
-
-	idnum, generation, err := readObjectHeader(stream)
-	if err != nil {
-		// Header not found at xref offset - search backwards and forwards
-		// The xref offset might point to the object content, not the header
-		if verbose {
-			log.Printf("readObjectHeader failed at offset %d, searching for header: %v", xrefOffset, err)
-		}
-
-		// Search in a window around xref offset (headers are usually close)
-		searchStart := max(0, int(xrefOffset)-500)
-		searchEnd := min(len(pdfBytes), int(xrefOffset)+500)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		pattern := []byte(fmt.Sprintf("%d %d obj", objNum, genNum))
-		patternPos := bytes.Index(searchArea, pattern)
-		if patternPos != -1 {
-			headerOffset := searchStart + patternPos
-			if verbose {
-				log.Printf("Found object header at offset %d (searched window around xref offset)", headerOffset)
-			}
-			_, err = stream.Seek(int64(headerOffset), 0)
-			if err != nil {
-				return nil, fmt.Errorf("failed to seek to found header: %v", err)
-			}
-			idnum, generation, err = readObjectHeader(stream)
-			if err != nil {
-				return nil, fmt.Errorf("failed to read header at found offset: %v", err)
-			}
-		} else {
-			// Fallback: search entire file with regex (PyPDF lines 432-452)
-			if verbose {
-				log.Printf("Header not found in window, trying full file regex search")
-			}
-			offset, err := findObjectHeaderByRegex(pdfBytes, objNum, genNum)
-			if err != nil {
-				if verbose {
-					log.Printf("Regex search also failed: %v", err)
-					log.Printf("Object header not found in plaintext - object may be in object stream or header is encrypted")
-					log.Printf("Attempting to parse dictionary structure from encrypted content at xref offset")
-				}
-				// If header not found, try to parse from xref offset anyway
-				// The structure markers might still be parseable
-				_, err = stream.Seek(xrefOffset, 0)
-				if err != nil {
-					return nil, fmt.Errorf("object header not found and cannot seek to xref: %v", err)
-				}
-				// We'll try to parse the dictionary structure even without the header
-				// Set idnum/generation from parameters
-				idnum = objNum
-				generation = genNum
-			}
-			if verbose {
-				log.Printf("Regex found object header at offset %d", offset)
-			}
-			_, err = stream.Seek(int64(offset), 0)
-			if err != nil {
-				return nil, fmt.Errorf("failed to seek to found offset: %v", err)
-			}
-			idnum, generation, err = readObjectHeader(stream)
-			if err != nil {
-				// Even if header read fails, continue with xref offset
-				// The structure might still be parseable
-				if verbose {
-					log.Printf("Failed to read header after regex find, continuing from xref offset: %v", err)
-				}
-				_, err = stream.Seek(xrefOffset, 0)
-				if err != nil {
-					return nil, fmt.Errorf("failed to seek back to xref offset: %v", err)
-				}
-				idnum = objNum
-				generation = genNum
-			}
-		}
-	}
-
-	if verbose {
-		log.Printf("ReadObjectFromXRef: Proceeding with idnum=%d, generation=%d, stream pos=%d", idnum, generation, stream.Tell())
-	}
-
-	if verbose {
-		log.Printf("ReadObjectFromXRef: Successfully read header - idnum=%d, generation=%d, stream pos=%d", idnum, generation, stream.Tell())
-	}
-
-	// Step 3: Verify object number matches (PyPDF lines 426-472)
-	if idnum != objNum {
-		return nil, fmt.Errorf("object number mismatch: expected %d, got %d", objNum, idnum)
-	}
-	if generation != genNum {
-		if verbose {
-			log.Printf("Generation number mismatch: expected %d, got %d", genNum, generation)
-		}
-		// Continue anyway (non-strict mode)
-	}
-
-	// Step 4: Parse object structure FIRST, then decrypt (PyPDF approach)
-	// PyPDF's read_object function parses the structure first (line 1441-1491)
-	// It checks the first byte to determine object type
-	// For dictionaries, it expects "<<" (line 1448-1449)
-	// Then PyPDF decrypts the parsed object's values (line 488-490)
-
-	objStart := int(stream.Tell())
-
-	// Check if we're at dictionary start
-	peek := stream.Peek(2)
-	if len(peek) < 2 || peek[0] != '<' || peek[1] != '<' {
-		// Not at dictionary start - the content might be encrypted
-		// Try to decrypt a small chunk first to see if we can find "<<" after decryption
-		if encryptInfo != nil && verbose {
-			log.Printf("Not at dictionary start (got %q), content appears encrypted", peek)
-			log.Printf("Attempting to decrypt and find dictionary structure")
-		}
-
-		// Try decrypting a window to find dictionary start
-		// Read a reasonable chunk (first 200 bytes should contain "<<" if it's a dictionary)
-		testWindow := min(200, len(pdfBytes)-objStart)
-		if testWindow > 0 {
-			testContent := pdfBytes[objStart : objStart+testWindow]
-			decryptedTest, err := encrypt.DecryptObject(testContent, objNum, generation, encryptInfo)
-			if err == nil && bytes.Contains(decryptedTest, []byte("<<")) {
-				// Found dictionary after decryption - the entire content needs decryption first
-				if verbose {
-					log.Printf("Found '<<' in decrypted test window - decrypting full content first")
-				}
-				// Read full object content
-				endobjPos := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-				if endobjPos == -1 {
-					return nil, fmt.Errorf("endobj not found")
-				}
-				objEnd := objStart + endobjPos
-				objContent := pdfBytes[objStart:objEnd]
-
-				// Decrypt full content
-				decrypted, err := encrypt.DecryptObject(objContent, objNum, generation, encryptInfo)
-				if err != nil {
-					decrypted, err = decryptInChunks(objContent, objNum, generation, encryptInfo, verbose)
-					if err != nil {
-						return nil, fmt.Errorf("failed to decrypt object: %v", err)
-					}
-				}
-
-				// Now parse dictionary from decrypted content
-				decryptedStream := NewPDFStream(decrypted)
-				parsedDict, _, err := parseDictionaryFromStream(decryptedStream, decrypted, verbose)
-				if err != nil {
-					// If parsing fails, return decrypted content as-is
-					if verbose {
-						log.Printf("Failed to parse dictionary from decrypted content: %v", err)
-					}
-					objContent = decrypted
-				} else {
-					// Dictionary parsed successfully - reconstruct it
-					objContent = reconstructDictionary(parsedDict)
-				}
-
-				// Reconstruct
-				result := make([]byte, 0, len(objContent)+50)
-				result = append(result, []byte(fmt.Sprintf("%d %d obj\n", objNum, genNum))...)
-				result = append(result, objContent...)
-				result = append(result, []byte("\nendobj")...)
-				return result, nil
-			}
-		}
-
-		// Fall back to old approach
-		if verbose {
-			log.Printf("Not a dictionary (peek=%q), trying to find endobj", peek)
-		}
-		endobjPos := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if endobjPos == -1 {
-			return nil, fmt.Errorf("endobj not found")
-		}
-		objEnd := objStart + endobjPos
-		objContent := pdfBytes[objStart:objEnd]
-
-		// Decrypt if needed
-		if encryptInfo != nil {
-			decrypted, err := encrypt.DecryptObject(objContent, objNum, generation, encryptInfo)
-			if err != nil {
-				decrypted, err = decryptInChunks(objContent, objNum, generation, encryptInfo, verbose)
-				if err != nil {
-					return nil, fmt.Errorf("failed to decrypt object: %v", err)
-				}
-			}
-			objContent = decrypted
-		}
-
-		// Reconstruct
-		result := make([]byte, 0, len(objContent)+50)
-		result = append(result, []byte(fmt.Sprintf("%d %d obj\n", objNum, genNum))...)
-		result = append(result, objContent...)
-		result = append(result, []byte("\nendobj")...)
-		return result, nil
-	}
-
-	// We're at dictionary start - PARSE STRUCTURE FIRST (PyPDF's DictionaryObject.read_from_stream)
-	// Parse the dictionary from raw bytes (structure markers like "<<" are in plaintext)
-	parsedDict, _, err := parseDictionaryFromStream(stream, pdfBytes, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse dictionary: %v", err)
-	}
-
-	// Step 5: Decrypt the parsed dictionary's values (PyPDF lines 482-490)
-	// PyPDF decrypts the parsed object, not raw bytes
-	if encryptInfo != nil {
-		decryptedDict, err := decryptParsedDictionary(parsedDict, objNum, generation, encryptInfo, verbose)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt dictionary values: %v", err)
-		}
-		parsedDict = decryptedDict
-	}
-
-	// Reconstruct the decrypted dictionary
-	objContent := reconstructDictionary(parsedDict)
-
-	// Reconstruct full object
-	result := make([]byte, 0, len(objContent)+50)
-	result = append(result, []byte(fmt.Sprintf("%d %d obj\n", objNum, genNum))...)
-	result = append(result, objContent...)
-	result = append(result, []byte("\nendobj")...)
-
-	return result, nil
-}
-
-// hexDump creates a hex dump of bytes (for debugging)
-func hexDump(data []byte) string {
-	var result strings.Builder
-	for i := 0; i < len(data); i += 16 {
-		result.WriteString(fmt.Sprintf("%04x: ", i))
-		for j := 0; j < 16 && i+j < len(data); j++ {
-			result.WriteString(fmt.Sprintf("%02x ", data[i+j]))
-		}
-		result.WriteString("\n")
-	}
-	return result.String()
-}
-
-// asciiDump creates an ASCII dump (non-printable as .) for debugging
-func asciiDump(data []byte) string {
-	var result strings.Builder
-	for i, b := range data {
-		if i > 0 && i%80 == 0 {
-			result.WriteString("\n")
-		}
-		if b >= 32 && b < 127 {
-			result.WriteByte(b)
-		} else {
-			result.WriteString(".")
-		}
-	}
-	return result.String()
-}
-
-// ParsedDictEntry represents a key-value pair in a parsed dictionary
-type ParsedDictEntry struct {
-	Key   []byte // Key (e.g., "/XFA")
-	Value []byte // Value (raw bytes, may be encrypted)
-}
-
-// parseDictionaryFromStream parses a dictionary from the stream (PyPDF's DictionaryObject.read_from_stream)
-// This parses the STRUCTURE from raw bytes, even if values are encrypted
-// Returns: parsed entries, end position, error
-func parseDictionaryFromStream(stream *PDFStream, pdfBytes []byte, verbose bool) ([]ParsedDictEntry, int, error) {
-	// Read "<<" marker (PyPDF line 549-557)
-	tmp, err := stream.Read(2)
-	if err != nil {
-		return nil, 0, fmt.Errorf("failed to read dictionary start: %v", err)
-	}
-	if !bytes.Equal(tmp, []byte("<<")) {
-		return nil, 0, fmt.Errorf("dictionary must begin with '<<', got %q", tmp)
-	}
-
-	var entries []ParsedDictEntry
-
-	// Parse key-value pairs (PyPDF lines 560-600)
-	for {
-		// Skip whitespace and comments
-		skipOverWhitespace(stream)
-		skipOverComment(stream)
-
-		// Check for dictionary end ">>"
-		peek := stream.Peek(2)
-		if len(peek) >= 2 && peek[0] == '>' && peek[1] == '>' {
-			stream.Read(2) // Consume ">>"
-			break
-		}
-
-		// Read key (should be a name object starting with "/")
-		keyStart := int(stream.Tell())
-		keyBytes, err := readNameObject(stream)
-		if err != nil {
-			// Try to find ">>" as fallback
-			remaining := pdfBytes[keyStart:]
-			endPos := bytes.Index(remaining, []byte(">>"))
-			if endPos != -1 {
-				stream.Seek(int64(keyStart+endPos+2), 0)
-				break
-			}
-			return nil, 0, fmt.Errorf("failed to read dictionary key: %v", err)
-		}
-
-		// Skip whitespace
-		skipOverWhitespace(stream)
-
-		// Read value (could be any PDF object)
-		valueBytes, err := readPDFObject(stream, pdfBytes)
-		if err != nil {
-			return nil, 0, fmt.Errorf("failed to read dictionary value for key %q: %v", string(keyBytes), err)
-		}
-
-		entries = append(entries, ParsedDictEntry{
-			Key:   keyBytes,
-			Value: valueBytes,
-		})
-
-		if verbose {
-			log.Printf("Parsed dict entry: %s = %d bytes", string(keyBytes), len(valueBytes))
-		}
-	}
-
-	endPos := int(stream.Tell())
-	return entries, endPos, nil
-}
-
-// readNameObject reads a PDF name object (e.g., "/XFA")
-func readNameObject(stream *PDFStream) ([]byte, error) {
-	b, err := stream.ReadByte()
-	if err != nil {
-		return nil, err
-	}
-	if b != '/' {
-		return nil, fmt.Errorf("name object must start with '/', got %c", b)
-	}
-
-	var result []byte
-	result = append(result, b)
-
-	for {
-		b, err := stream.ReadByte()
-		if err != nil {
-			break
-		}
-		// Name objects end at whitespace or special characters
-		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '/' || b == '[' || b == ']' || b == '<' || b == '>' || b == '(' || b == ')' {
-			stream.Seek(-1, 1)
-			break
-		}
-		result = append(result, b)
-	}
-
-	return result, nil
-}
-
-// readPDFObject reads a PDF object value (simplified - reads until next key or dict end)
-// For our use case, we read the value as raw bytes until we encounter:
-// - Next dictionary key (starts with "/" after whitespace)
-// - Dictionary end (">>")
-// - End of object ("endobj")
-func readPDFObject(stream *PDFStream, pdfBytes []byte) ([]byte, error) {
-	startPos := int(stream.Tell())
-	currentPos := startPos
-
-	// Look ahead to find where this value ends
-	// Strategy: scan forward until we find:
-	// 1. "/" followed by whitespace (next key)
-	// 2. ">>" (dictionary end)
-	// 3. "endobj" (object end)
-
-	// We need to handle nested structures, so track depth for dicts/arrays
-	dictDepth := 0
-	arrayDepth := 0
-	stringDepth := 0
-
-	for currentPos < len(pdfBytes) {
-		// Check for dictionary end
-		if currentPos+1 < len(pdfBytes) && pdfBytes[currentPos] == '>' && pdfBytes[currentPos+1] == '>' {
-			if dictDepth == 0 && arrayDepth == 0 && stringDepth == 0 {
-				// Found dictionary end - value ends before this
-				stream.Seek(int64(currentPos), 0)
-				return pdfBytes[startPos:currentPos], nil
-			}
-		}
-
-		// Check for next key (starts with "/" after whitespace)
-		if currentPos > 0 && (pdfBytes[currentPos-1] == ' ' || pdfBytes[currentPos-1] == '\t' || pdfBytes[currentPos-1] == '\n' || pdfBytes[currentPos-1] == '\r') {
-			if pdfBytes[currentPos] == '/' && dictDepth == 0 && arrayDepth == 0 && stringDepth == 0 {
-				// Found next key - value ends before this
-				stream.Seek(int64(currentPos), 0)
-				return pdfBytes[startPos:currentPos], nil
-			}
-		}
-
-		// Track nested structures
-		if stringDepth == 0 { // Only track depth when not in string
-			if pdfBytes[currentPos] == '<' && currentPos+1 < len(pdfBytes) && pdfBytes[currentPos+1] == '<' {
-				dictDepth++
-				currentPos++ // Skip second '<'
-			} else if pdfBytes[currentPos] == '>' && currentPos+1 < len(pdfBytes) && pdfBytes[currentPos+1] == '>' {
-				dictDepth--
-				currentPos++ // Skip second '>'
-			} else if pdfBytes[currentPos] == '[' {
-				arrayDepth++
-			} else if pdfBytes[currentPos] == ']' {
-				arrayDepth--
-			}
-		}
-
-		// Track strings (handle escape sequences)
-		if pdfBytes[currentPos] == '(' && (currentPos == 0 || pdfBytes[currentPos-1] != '\\') {
-			stringDepth++
-		} else if pdfBytes[currentPos] == ')' && stringDepth > 0 && (currentPos == 0 || pdfBytes[currentPos-1] != '\\') {
-			stringDepth--
-		}
-
-		currentPos++
-	}
-
-	// Reached end - return what we have
-	stream.Seek(int64(currentPos), 0)
-	return pdfBytes[startPos:currentPos], nil
-}
-
-// decryptParsedDictionary decrypts the values in a parsed dictionary (PyPDF's decrypt_object)
-func decryptParsedDictionary(entries []ParsedDictEntry, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]ParsedDictEntry, error) {
-	result := make([]ParsedDictEntry, len(entries))
-
-	for i, entry := range entries {
-		result[i].Key = entry.Key // Keys are not encrypted
-
-		// Decrypt the value
-		decrypted, err := encrypt.DecryptObject(entry.Value, objNum, genNum, encryptInfo)
-		if err != nil {
-			// Try chunked decryption for large values
-			decrypted, err = decryptInChunks(entry.Value, objNum, genNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Failed to decrypt value for key %s: %v", string(entry.Key), err)
-				}
-				// Keep original value if decryption fails
-				result[i].Value = entry.Value
-				continue
-			}
-		}
-		result[i].Value = decrypted
-
-		if verbose && bytes.Equal(entry.Key, []byte("/XFA")) {
-			log.Printf("Decrypted /XFA value: %d bytes -> %d bytes", len(entry.Value), len(decrypted))
-		}
-	}
-
-	return result, nil
-}
-
-// reconstructDictionary reconstructs a parsed dictionary back to PDF bytes
-func reconstructDictionary(entries []ParsedDictEntry) []byte {
-	var result bytes.Buffer
-	result.WriteString("<<\n")
-
-	for _, entry := range entries {
-		result.Write(entry.Key)
-		result.WriteByte(' ')
-		result.Write(entry.Value)
-		result.WriteByte('\n')
-	}
-
-	result.WriteString(">>")
-	return result.Bytes()
+	return parse.GetDirectObject(pdfBytes, objNum, xrefOffset, encryptInfo, verbose)
 }
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index dc62dfc..cd37fce 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -1,99 +1,17 @@
 package xfa
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
+	"encoding/xml"
 	"fmt"
 	"io"
 	"log"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
-// extractStreamDataFromObject extracts stream data from raw object bytes
-// The object should already be decrypted
-func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find stream keyword
-	streamIdx := bytes.Index(objData, []byte("stream"))
-	if streamIdx == -1 {
-		// Not a stream object - might be a simple value
-		// Look for dictionary or value content
-		dictStart := bytes.Index(objData, []byte("<<"))
-		if dictStart != -1 {
-			return objData[dictStart:], nil
-		}
-		return objData, nil
-	}
-
-	// Find endstream
-	endstreamIdx := bytes.Index(objData[streamIdx:], []byte("endstream"))
-	if endstreamIdx == -1 {
-		return nil, fmt.Errorf("endstream not found in object %d", objNum)
-	}
-	endstreamIdx += streamIdx
-
-	// Get /Length from dictionary if available
-	dictEnd := streamIdx
-	dictStr := string(objData[:dictEnd])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictStr)
-
-	// Skip "stream" and EOL
-	dataStart := streamIdx + 6
-	if dataStart < len(objData) && objData[dataStart] == '\r' {
-		dataStart++
-	}
-	if dataStart < len(objData) && objData[dataStart] == '\n' {
-		dataStart++
-	}
-
-	var streamData []byte
-	if lengthMatch != nil {
-		length, _ := strconv.Atoi(lengthMatch[1])
-		if dataStart+length <= len(objData) {
-			streamData = objData[dataStart : dataStart+length]
-		} else {
-			streamData = objData[dataStart:endstreamIdx]
-		}
-	} else {
-		streamData = objData[dataStart:endstreamIdx]
-	}
-
-	// Check if FlateDecode filter is present
-	if bytes.Contains(objData[:streamIdx], []byte("/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter /FlateDecode")) {
-		// Decompress
-		zlibReader, err := zlib.NewReader(bytes.NewReader(streamData))
-		if err == nil {
-			decompressed, err := io.ReadAll(zlibReader)
-			zlibReader.Close()
-			if err == nil {
-				return decompressed, nil
-			}
-		}
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err := io.ReadAll(flateReader)
-		flateReader.Close()
-		if err == nil {
-			return decompressed, nil
-		}
-		// Return raw data if decompression fails
-		if verbose {
-			log.Printf("Decompression failed for object %d, returning raw stream data", objNum)
-		}
-	}
-
-	return streamData, nil
-}
-
 // XFAStreamInfo contains stream data and metadata
 type XFAStreamInfo struct {
 	Data         []byte `json:"data"`
@@ -114,191 +32,88 @@ type XFAStreams struct {
 	SourceSet     *XFAStreamInfo `json:"sourceSet,omitempty"`
 }
 
-// ExtractAllXFAStreams extracts all XFA streams from a PDF without using UniPDF
-func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*XFAStreams, error) {
-	if verbose {
-		log.Printf("Extracting all XFA streams from PDF (no UniPDF)")
+// stream returns where the packet with the given name is kept, or nil
+func (s *XFAStreams) stream(name string) **XFAStreamInfo {
+	switch name {
+	case "template":
+		return &s.Template
+	case "datasets":
+		return &s.Datasets
+	case "config":
+		return &s.Config
+	case "localeSet":
+		return &s.LocaleSet
+	case "connectionSet":
+		return &s.ConnectionSet
+	case "stylesheet":
+		return &s.Stylesheet
+	case "xmp":
+		return &s.XMP
+	case "signature":
+		return &s.Signature
+	case "sourceSet":
+		return &s.SourceSet
+	default:
+		return nil
 	}
+}
 
-	streams := &XFAStreams{}
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatchIndex(pdfStr)
-
-	var acroFormObjNum int
-	var err error
-
-	if acroFormMatch != nil {
-		// AcroForm is an indirect reference
-		acroFormObjNum, err = strconv.Atoi(pdfStr[acroFormMatch[2]:acroFormMatch[3]])
-		if err != nil {
-			return nil, fmt.Errorf("invalid AcroForm object number: %v", err)
-		}
-
-		if verbose {
-			log.Printf("Found AcroForm indirect reference: object %d", acroFormObjNum)
-		}
-	} else {
-		// Try inline AcroForm dictionary
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		acroFormInlineMatch := acroFormInlinePattern.FindStringIndex(pdfStr)
-		if acroFormInlineMatch == nil {
-			return nil, fmt.Errorf("AcroForm not found (neither inline nor indirect reference)")
-		}
-		// For inline, we'll search from that position
-		acroFormObjNum = 0
-	}
-
-	// Find and decrypt AcroForm object to get XFA array using PyPDF approach
-	var xfaArrayContent string
-	if acroFormObjNum > 0 {
-		// Use new GetObject function that handles both direct objects and object streams
-		// This is the equivalent of PyPDF's get_object() method
-		decryptedContent, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("GetObject failed for AcroForm %d: %v, trying fallback", acroFormObjNum, err)
-			}
-			// Fallback to old method
-			decryptedContent, err = findAndDecryptAcroForm(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		xfaArrayContent, err = findXFAArrayContent(decryptedContent, verbose)
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		// Inline AcroForm - find XFA directly
-		xfaPattern := regexp.MustCompile(`/XFA\s*\[`)
-		xfaMatch := xfaPattern.FindStringIndex(pdfStr)
-		if xfaMatch == nil {
-			return nil, fmt.Errorf("XFA entry not found")
-		}
-
-		arrayStart := xfaMatch[1] - 1
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(pdfStr) && i < arrayStart+10000; i++ {
-			if pdfStr[i] == '[' {
-				depth++
-			} else if pdfStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i
-					break
-				}
-			}
-		}
-
-		if arrayEnd == arrayStart {
-			return nil, fmt.Errorf("could not find end of XFA array")
-		}
+// packetNames lists the packets of XFAStreams
+var packetNames = []string{"template", "datasets", "config", "localeSet", "connectionSet", "stylesheet", "xmp", "signature", "sourceSet"}
 
-		xfaArrayContent = pdfStr[arrayStart+1 : arrayEnd]
+// openPDF opens a PDF whose encryption, if any, is unlocked already
+func openPDF(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*parse.PDF, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo, Verbose: verbose})
+	if err != nil {
+		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
 	}
+	return pdf, nil
+}
 
+// ExtractAllXFAStreams extracts all XFA streams from a PDF without using UniPDF
+func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*XFAStreams, error) {
 	if verbose {
-		log.Printf("Found XFA array content: %s", xfaArrayContent[:min(200, len(xfaArrayContent))])
+		log.Printf("Extracting all XFA streams from PDF (no UniPDF)")
 	}
 
-	// Parse XFA array: format is (name) N M R (name) N M R ...
-	// Pattern: (name) followed by object number, generation, and R
-	// Note: whitespace between ) and object number is optional
-	streamPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+(\d+)\s+R`)
-	matches := streamPattern.FindAllStringSubmatch(xfaArrayContent, -1)
-
-	if len(matches) == 0 {
+	pdf, err := openPDF(pdfBytes, encryptInfo, verbose)
+	if err != nil {
+		return nil, err
+	}
+	packets, err := pdf.XFAPackets()
+	if err != nil {
+		return nil, err
+	}
+	if len(packets) == 0 {
 		return nil, fmt.Errorf("no stream references found in XFA array")
 	}
-
 	if verbose {
-		log.Printf("Found %d stream references in XFA array", len(matches))
+		log.Printf("Found %d stream references in XFA array", len(packets))
 	}
 
-	// Extract each stream
-	for _, match := range matches {
-		streamName := match[1]
-		objNum, err := strconv.Atoi(match[2])
-		if err != nil {
+	streams := &XFAStreams{}
+	for _, packet := range packets {
+		stream := streams.stream(packet.Name)
+		if stream == nil {
 			if verbose {
-				log.Printf("Invalid stream object number for %s: %s", streamName, match[2])
+				log.Printf("Unknown XFA stream type: %s", packet.Name)
 			}
 			continue
 		}
-
-		// Use GetObject which properly handles both direct objects and objects in streams
-		objData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to get object %d for stream %s: %v, trying fallback", objNum, streamName, err)
-			}
-			// Fallback to old method
-			objData, _, err = extractStreamFromPDF(pdfBytes, objNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Fallback also failed for %s (object %d): %v", streamName, objNum, err)
-				}
-				continue
-			}
-		}
-
-		// Extract stream data from the object
-		streamData, err := extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
+		data, compressed, err := pdf.StreamData(packet.ObjectNum)
 		if err != nil {
 			if verbose {
-				log.Printf("Failed to extract stream data from object %d: %v", objNum, err)
+				log.Printf("Failed to get object %d for stream %s: %v", packet.ObjectNum, packet.Name, err)
 			}
 			continue
 		}
-
-		// Decompress if needed
-		decompressed, wasCompressed, err := DecompressStream(streamData)
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to decompress stream %s: %v", streamName, err)
-			}
-			decompressed = streamData // Use as-is if decompression fails
-		}
-
-		streamInfo := &XFAStreamInfo{
-			Data:         decompressed,
-			ObjectNumber: objNum,
-			Compressed:   wasCompressed,
+		*stream = &XFAStreamInfo{
+			Data:         data,
+			ObjectNumber: packet.ObjectNum,
+			Compressed:   compressed,
 		}
-
 		if verbose {
-			log.Printf("Extracted %s stream: %d bytes (object %d, compressed: %v)", streamName, len(decompressed), objNum, wasCompressed)
-		}
-
-		// Store in appropriate field
-		switch streamName {
-		case "template":
-			streams.Template = streamInfo
-		case "datasets":
-			streams.Datasets = streamInfo
-		case "config":
-			streams.Config = streamInfo
-		case "localeSet":
-			streams.LocaleSet = streamInfo
-		case "connectionSet":
-			streams.ConnectionSet = streamInfo
-		case "stylesheet":
-			streams.Stylesheet = streamInfo
-		case "xmp":
-			streams.XMP = streamInfo
-		case "signature":
-			streams.Signature = streamInfo
-		case "sourceSet":
-			streams.SourceSet = streamInfo
-		default:
-			if verbose {
-				log.Printf("Unknown XFA stream type: %s", streamName)
-			}
+			log.Printf("Extracted %s stream: %d bytes (object %d, compressed: %v)", packet.Name, len(data), packet.ObjectNum, compressed)
 		}
 	}
 
@@ -330,32 +145,10 @@ func RebuildPDFFromXFAStreams(originalPDFBytes []byte, streams *XFAStreams, encr
 
 	// Map stream names to stream data
 	updatedStreams := make(map[string][]byte)
-	if streams.Template != nil && len(streams.Template.Data) > 0 {
-		updatedStreams["template"] = streams.Template.Data
-	}
-	if streams.Datasets != nil && len(streams.Datasets.Data) > 0 {
-		updatedStreams["datasets"] = streams.Datasets.Data
-	}
-	if streams.Config != nil && len(streams.Config.Data) > 0 {
-		updatedStreams["config"] = streams.Config.Data
-	}
-	if streams.LocaleSet != nil && len(streams.LocaleSet.Data) > 0 {
-		updatedStreams["localeSet"] = streams.LocaleSet.Data
-	}
-	if streams.ConnectionSet != nil && len(streams.ConnectionSet.Data) > 0 {
-		updatedStreams["connectionSet"] = streams.ConnectionSet.Data
-	}
-	if streams.Stylesheet != nil && len(streams.Stylesheet.Data) > 0 {
-		updatedStreams["stylesheet"] = streams.Stylesheet.Data
-	}
-	if streams.XMP != nil && len(streams.XMP.Data) > 0 {
-		updatedStreams["xmp"] = streams.XMP.Data
-	}
-	if streams.Signature != nil && len(streams.Signature.Data) > 0 {
-		updatedStreams["signature"] = streams.Signature.Data
-	}
-	if streams.SourceSet != nil && len(streams.SourceSet.Data) > 0 {
-		updatedStreams["sourceSet"] = streams.SourceSet.Data
+	for _, name := range packetNames {
+		if stream := *streams.stream(name); stream != nil && len(stream.Data) > 0 {
+			updatedStreams[name] = stream.Data
+		}
 	}
 
 	// Use XFABuilder to rebuild
@@ -372,55 +165,14 @@ func BuildPDFFromXFAStreams(streams *XFAStreams, verbose bool) ([]byte, error) {
 
 	// Collect all non-nil streams
 	var xfaStreams []write.XFAStreamData
-
-	if streams.Template != nil && len(streams.Template.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "template",
-			Data:     streams.Template.Data,
-			Compress: true,
-		})
-	}
-	if streams.Datasets != nil && len(streams.Datasets.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "datasets",
-			Data:     streams.Datasets.Data,
-			Compress: true,
-		})
-	}
-	if streams.Config != nil && len(streams.Config.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "config",
-			Data:     streams.Config.Data,
-			Compress: true,
-		})
-	}
-	if streams.LocaleSet != nil && len(streams.LocaleSet.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "localeSet",
-			Data:     streams.LocaleSet.Data,
-			Compress: true,
-		})
-	}
-	if streams.ConnectionSet != nil && len(streams.ConnectionSet.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "connectionSet",
-			Data:     streams.ConnectionSet.Data,
-			Compress: true,
-		})
-	}
-	if streams.Stylesheet != nil && len(streams.Stylesheet.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "stylesheet",
-			Data:     streams.Stylesheet.Data,
-			Compress: true,
-		})
-	}
-	if streams.XMP != nil && len(streams.XMP.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "xmp",
-			Data:     streams.XMP.Data,
-			Compress: true,
-		})
+	for _, name := range packetNames {
+		if stream := *streams.stream(name); stream != nil && len(stream.Data) > 0 {
+			xfaStreams = append(xfaStreams, write.XFAStreamData{
+				Name:     name,
+				Data:     stream.Data,
+				Compress: true,
+			})
+		}
 	}
 
 	builder := write.NewXFABuilder(verbose)
@@ -429,131 +181,183 @@ func BuildPDFFromXFAStreams(streams *XFAStreams, verbose bool) ([]byte, error) {
 
 // UpdateXFAInPDF updates XFA field values in PDF bytes
 func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find XFA datasets stream
-	datasetsStream, streamObjNum, err := FindXFADatasetsStream(pdfBytes, encryptInfo, verbose)
+	pdf, err := openPDF(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("error finding XFA datasets stream: %v", err)
+		return nil, err
 	}
 
-	if verbose {
-		log.Printf("Found XFA datasets stream at object %d", streamObjNum)
-		log.Printf("Stream size: %d bytes", len(datasetsStream))
+	// Find XFA datasets stream
+	packets, err := pdf.XFAPackets()
+	if err != nil {
+		return nil, fmt.Errorf("error finding XFA datasets stream: %w", err)
 	}
-
-	// Decompress if needed and parse XML
-	xfaXML, wasCompressed, err := DecompressStream(datasetsStream)
+	streamObjNum := 0
+	for _, packet := range packets {
+		if packet.Name == "datasets" {
+			streamObjNum = packet.ObjectNum
+		}
+	}
+	if streamObjNum == 0 {
+		return nil, fmt.Errorf("error finding XFA datasets stream: datasets stream not found in XFA")
+	}
+	xfaXML, _, err := pdf.StreamData(streamObjNum)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing stream: %v", err)
+		return nil, fmt.Errorf("error decompressing stream: %w", err)
 	}
-
 	if verbose {
-		log.Printf("Decompressed XFA XML: %d bytes (was compressed: %v)", len(xfaXML), wasCompressed)
+		log.Printf("Found XFA datasets stream at object %d", streamObjNum)
+		log.Printf("Stream size: %d bytes", len(xfaXML))
 	}
 
 	// Update field values in XFA XML
 	updatedXML, err := UpdateXFAValues(string(xfaXML), formData, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("error updating XFA values: %v", err)
-	}
-
-	// Re-compress if it was compressed
-	updatedStream := []byte(updatedXML)
-	if wasCompressed {
-		compressed, err := CompressStream(updatedStream)
-		if err != nil {
-			return nil, fmt.Errorf("error compressing stream: %v", err)
-		}
-		updatedStream = compressed
-		if verbose {
-			log.Printf("Re-compressed stream: %d bytes", len(updatedStream))
-		}
+		return nil, fmt.Errorf("error updating XFA values: %w", err)
 	}
 
 	// Update PDF with new stream
-	updatedPDF, err := ReplaceStreamInPDF(pdfBytes, streamObjNum, updatedStream, verbose)
+	updatedPDF, err := pdf.UpdateXFA(map[string][]byte{"datasets": []byte(updatedXML)})
 	if err != nil {
-		return nil, fmt.Errorf("error replacing stream: %v", err)
+		return nil, fmt.Errorf("error replacing stream: %w", err)
 	}
 
 	return updatedPDF, nil
 }
 
-// UpdateXFAValues updates field values in XFA XML
+// UpdateXFAValues updates field values in the data section of XFA XML, or
+// anywhere if it has no data section
 func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	// Find data section
-	dataStart := strings.Index(xfaXML, "<data")
-	if dataStart == -1 {
-		// If no data section, update individual fields
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Find end of data section
-	dataEnd := strings.LastIndex(xfaXML, "</data>")
-	if dataEnd == -1 {
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Extract data section
-	dataSection := xfaXML[dataStart : dataEnd+7]
-
-	// Update field values in data section
-	updatedData, err := UpdateXFAFieldValues(dataSection, formData, verbose)
-	if err != nil {
-		return "", err
-	}
-
-	// Replace data section in full XML
-	result := xfaXML[:dataStart] + updatedData + xfaXML[dataEnd+7:]
-
-	return result, nil
+	return updateValues(xfaXML, formData, hasDataSection(xfaXML), verbose)
 }
 
 // UpdateXFAFieldValues updates individual field values in XFA XML
 func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	resultXML := xfaXML
+	return updateValues(xfaXML, formData, false, verbose)
+}
 
-	for fieldName, newValue := range formData {
-		// Find field in XFA XML
-		fieldPattern := fmt.Sprintf(`<field name="%s"`, fieldName)
-		fieldIndex := strings.Index(resultXML, fieldPattern)
+// newXMLDecoder returns a decoder that takes XML as it comes
+func newXMLDecoder(text string) *xml.Decoder {
+	decoder := xml.NewDecoder(strings.NewReader(text))
+	decoder.Strict = false
+	decoder.CharsetReader = func(_ string, input io.Reader) (io.Reader, error) { return input, nil }
+	return decoder
+}
 
-		if fieldIndex == -1 {
-			if verbose {
-				log.Printf("Warning: Field '%s' not found in XFA XML", fieldName)
-			}
-			continue
+// hasDataSection tells whether XFA XML has a data element
+func hasDataSection(xfaXML string) bool {
+	decoder := newXMLDecoder(xfaXML)
+	for {
+		token, err := decoder.RawToken()
+		if err != nil {
+			return false
 		}
-
-		// Find the value element for this field
-		fieldEnd := strings.Index(resultXML[fieldIndex:], "</field>")
-		if fieldEnd == -1 {
-			continue
+		if start, ok := token.(xml.StartElement); ok && start.Name.Local == "data" {
+			return true
 		}
+	}
+}
 
-		fieldSection := resultXML[fieldIndex : fieldIndex+fieldEnd]
-
-		// Check if value element exists
-		valueStart := strings.Index(fieldSection, "<value>")
-		valueEnd := strings.Index(fieldSection, "</value>")
-
-		valueStr := fmt.Sprintf("%v", newValue)
-
-		if valueStart != -1 && valueEnd != -1 {
-			// Replace existing value
-			beforeValue := resultXML[:fieldIndex+valueStart+7]
-			afterValue := resultXML[fieldIndex+valueEnd:]
-			resultXML = beforeValue + valueStr + afterValue
-		} else {
-			// Insert new value element before </field>
-			beforeFieldEnd := resultXML[:fieldIndex+fieldEnd]
-			afterFieldEnd := resultXML[fieldIndex+fieldEnd:]
-			resultXML = beforeFieldEnd + "<value>" + valueStr + "</value>" + afterFieldEnd
+// updateValues gives the first field of each name its new value. The text
+// around the values stays as it is.
+func updateValues(xfaXML string, formData types.FormData, dataOnly, verbose bool) (string, error) {
+	// element is an element that is open
+	type element struct {
+		name  string // name of the field, if it is one that gets a value
+		local string
+		tag   string // name with its prefix
+		start int    // where its content begins
+		empty bool   // given by a single tag
+		value bool   // a field whose value was found
+	}
+	var (
+		result  strings.Builder
+		copied  int
+		open    []element
+		done    = make(map[string]bool)
+		inData  = 0
+		decoder = newXMLDecoder(xfaXML)
+	)
+	replace := func(start, end int, text string) {
+		result.WriteString(xfaXML[copied:start])
+		result.WriteString(text)
+		copied = end
+	}
+	for {
+		before := int(decoder.InputOffset())
+		token, err := decoder.RawToken()
+		if err != nil {
+			if err != io.EOF && len(done) < len(formData) {
+				return "", fmt.Errorf("malformed XFA XML: %w", err)
+			}
+			break
 		}
-
-		if verbose {
-			log.Printf("Updated field '%s' = '%s'", fieldName, valueStr)
+		after := int(decoder.InputOffset())
+		switch token := token.(type) {
+		case xml.StartElement:
+			e := element{local: token.Name.Local, tag: token.Name.Local, start: after, empty: strings.HasSuffix(xfaXML[before:after], "/>")}
+			if token.Name.Space != "" {
+				e.tag = token.Name.Space + ":" + e.tag
+			}
+			if e.local == "data" {
+				inData++
+			}
+			if e.local == "field" && (inData > 0 || !dataOnly) {
+				for _, attr := range token.Attr {
+					if attr.Name.Local == "name" && attr.Name.Space == "" {
+						if _, ok := formData[attr.Value]; ok && !done[attr.Value] {
+							e.name = attr.Value
+						}
+					}
+				}
+			}
+			open = append(open, e)
+		case xml.EndElement:
+			if len(open) == 0 {
+				continue
+			}
+			e := open[len(open)-1]
+			open = open[:len(open)-1]
+			if e.local == "data" {
+				inData--
+			}
+			if e.local == "value" && len(open) > 0 && open[len(open)-1].name != "" && !open[len(open)-1].value {
+				field := &open[len(open)-1]
+				field.value = true
+				done[field.name] = true
+				text := xmlText(formatFieldValue(formData[field.name]))
+				if e.empty {
+					replace(e.start-2, e.start, ">"+text+"</"+e.tag+">")
+				} else {
+					replace(e.start, before, text)
+				}
+				continue
+			}
+			if e.name != "" && !e.value {
+				done[e.name] = true
+				tag := strings.TrimSuffix(e.tag, "field") + "value"
+				text := "<" + tag + ">" + xmlText(formatFieldValue(formData[e.name])) + "</" + tag + ">"
+				if e.empty {
+					replace(e.start-2, e.start, ">"+text+"</"+e.tag+">")
+				} else {
+					replace(before, before, text)
+				}
+			}
 		}
 	}
+	if verbose {
+		for name := range formData {
+			if !done[name] {
+				log.Printf("Warning: Field '%s' not found in XFA XML", name)
+			}
+		}
+	}
+	result.WriteString(xfaXML[copied:])
+	return result.String(), nil
+}
 
-	return resultXML, nil
+// xmlText returns text as the content of an XML element
+func xmlText(text string) string {
+	var b strings.Builder
+	xml.EscapeText(&b, []byte(text))
+	return b.String()
 }
diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 473a443..04460d6 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -22,25 +24,22 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 		Groups: make([]types.XFAFieldGroup, 0),
 	}
 
-	decoder := xml.NewDecoder(strings.NewReader(xfaDatasetsXML))
-	decoder.Strict = false
-
-	var currentGroup *types.XFAFieldGroup
-	var currentFieldName string
-	var currentFieldValue strings.Builder
-	var inData bool
-	var inField bool
-	var inValue bool
-	var inGroup bool
-	var groupStack []*types.XFAFieldGroup
+	// element is an element that is open
+	type element struct {
+		local string
+		group *types.XFAFieldGroup // for a group
+		field string               // for a field: its name
+		value *strings.Builder     // for a field: what it holds
+	}
+	var open []element
+	inData := 0
+	dataOnly := hasDataSection(xfaDatasetsXML)
 
+	decoder := newXMLDecoder(xfaDatasetsXML)
 	for {
 		token, err := decoder.Token()
 		if err != nil {
-			if err == io.EOF {
-				break
-			}
-			if verbose {
+			if err != io.EOF && verbose {
 				log.Printf("XML parse error (continuing): %v", err)
 			}
 			break
@@ -48,88 +47,64 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 
 		switch se := token.(type) {
 		case xml.StartElement:
-			localName := se.Name.Local
-
-			switch localName {
-			case "data":
-				inData = true
-			case "field":
-				inField = true
-				currentFieldValue.Reset()
+			e := element{local: se.Name.Local}
+			inField := false
+			for _, above := range open {
+				inField = inField || above.value != nil
+			}
+			switch {
+			case e.local == "data":
+				inData++
+			case inField || dataOnly && inData == 0:
+			case e.local == "field":
+				e.value = &strings.Builder{}
 				for _, attr := range se.Attr {
-					if attr.Name.Local == "name" {
-						currentFieldName = attr.Value
+					if attr.Name.Local == "name" && attr.Name.Space == "" {
+						e.field = attr.Value
 					}
 				}
-			case "value":
-				if inField {
-					inValue = true
-					currentFieldValue.Reset()
-				}
-			default:
+			case inData > 0 && !isStandardXFAElement(e.local):
 				// Treat unknown elements as groups if they're not standard XFA elements
-				if inData && !isStandardXFAElement(localName) {
-					inGroup = true
-					group := &types.XFAFieldGroup{
-						Name:   localName,
-						Fields: make(map[string]interface{}),
-						Groups: make([]types.XFAFieldGroup, 0),
-					}
-					if currentGroup != nil {
-						// Nested group
-						groupStack = append(groupStack, currentGroup)
-					}
-					currentGroup = group
+				e.group = &types.XFAFieldGroup{
+					Name:   e.local,
+					Fields: make(map[string]interface{}),
+					Groups: make([]types.XFAFieldGroup, 0),
 				}
 			}
+			open = append(open, e)
 
 		case xml.EndElement:
-			localName := se.Name.Local
-
-			switch localName {
-			case "data":
-				inData = false
-			case "field":
-				if currentFieldName != "" {
-					value := strings.TrimSpace(currentFieldValue.String())
-					// Try to parse as number or boolean
-					parsedValue := parseFieldValue(value)
-
-					if currentGroup != nil {
-						currentGroup.Fields[currentFieldName] = parsedValue
-					} else {
-						datasets.Fields[currentFieldName] = parsedValue
-					}
-					if verbose {
-						log.Printf("Parsed field: %s = %v", currentFieldName, parsedValue)
-					}
+			if len(open) == 0 {
+				continue
+			}
+			e := open[len(open)-1]
+			open = open[:len(open)-1]
+			if e.local == "data" {
+				inData--
+			}
+			fields, groups := datasets.Fields, &datasets.Groups
+			for _, above := range open {
+				if above.group != nil {
+					fields, groups = above.group.Fields, &above.group.Groups
 				}
-				inField = false
-				currentFieldName = ""
-				currentFieldValue.Reset()
-			case "value":
-				inValue = false
-			default:
-				// End of group
-				if inGroup && currentGroup != nil && localName == currentGroup.Name {
-					if len(groupStack) > 0 {
-						// Add to parent group
-						parent := groupStack[len(groupStack)-1]
-						parent.Groups = append(parent.Groups, *currentGroup)
-						groupStack = groupStack[:len(groupStack)-1]
-						currentGroup = parent
-					} else {
-						// Top-level group
-						datasets.Groups = append(datasets.Groups, *currentGroup)
-						currentGroup = nil
-					}
-					inGroup = false
+			}
+			if e.group != nil {
+				*groups = append(*groups, *e.group)
+			}
+			if e.field != "" {
+				// Try to parse as number or boolean
+				fields[e.field] = parseFieldValue(e.value.String())
+				if verbose {
+					log.Printf("Parsed field: %s = %v", e.field, fields[e.field])
 				}
 			}
 
 		case xml.CharData:
-			if inValue && inField {
-				currentFieldValue.WriteString(string(se))
+			// The text of a field is that of its value element
+			for i := len(open) - 2; i >= 0; i-- {
+				if open[i].value != nil && open[i+1].local == "value" {
+					open[i].value.Write(se)
+				}
 			}
 		}
 	}
@@ -141,27 +116,21 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 	return datasets, nil
 }
 
-// parseFieldValue attempts to parse a field value as number or boolean
+// parseFieldValue attempts to parse a field value as number or boolean. Text
+// that would be written differently stays text.
 func parseFieldValue(value string) interface{} {
-	if value == "" {
-		return ""
-	}
-
 	// Try boolean
-	if value == "true" || value == "1" {
-		return true
-	}
-	if value == "false" || value == "0" {
-		return false
+	if value == "true" || value == "false" {
+		return value == "true"
 	}
 
 	// Try integer
-	if intVal, err := strconv.Atoi(value); err == nil {
+	if intVal, err := strconv.Atoi(value); err == nil && formatFieldValue(intVal) == value {
 		return intVal
 	}
 
 	// Try float
-	if floatVal, err := strconv.ParseFloat(value, 64); err == nil {
+	if floatVal, err := strconv.ParseFloat(value, 64); err == nil && !math.IsInf(floatVal, 0) && !math.IsNaN(floatVal) && formatFieldValue(floatVal) == value {
 		return floatVal
 	}
 
@@ -186,8 +155,8 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	}
 
 	// Encode top-level fields
-	for name, value := range datasets.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range fieldNames(datasets.Fields) {
+		if err := encodeField(enc, name, datasets.Fields[name]); err != nil {
 			return "", fmt.Errorf("failed to encode field %s: %v", name, err)
 		}
 	}
@@ -216,6 +185,16 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	return result, nil
 }
 
+// fieldNames returns the names of fields, in order
+func fieldNames(fields map[string]interface{}) []string {
+	names := make([]string, 0, len(fields))
+	for name := range fields {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // encodeField encodes a field as XFA XML
 func encodeField(enc *xml.Encoder, name string, value interface{}) error {
 	fieldStart := xml.StartElement{
@@ -259,8 +238,8 @@ func encodeFieldGroup(enc *xml.Encoder, group types.XFAFieldGroup) error {
 	}
 
 	// Encode fields in group
-	for name, value := range group.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range fieldNames(group.Fields) {
+		if err := encodeField(enc, name, group.Fields[name]); err != nil {
 			return err
 		}
 	}
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 3881dcc..6b22b05 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -7,800 +7,11 @@ import (
 	"fmt"
 	"io"
 	"log"
-	"regexp"
 	"strconv"
-	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
-	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 )
 
-// findObjectBoundaries finds the start and end of a PDF object using incremental parsing
-// This uses non-encrypted markers ("obj", "endobj") to locate object boundaries
-func findObjectBoundaries(pdfBytes []byte, objIndex int, objNum int, objName string, verbose bool) (objStart, objEnd int, objContent []byte, err error) {
-	// Find object boundaries - search backwards from objIndex to find "obj" keyword
-	// The xref offset might point to encrypted content, but "obj" keyword is not encrypted
-	// Strategy: First try direct pattern search, then fall back to searching for "obj" keyword
-
-	objKeywordPos := -1
-	objStart = objIndex
-
-	// First, try to find the object number pattern directly (works if object header is visible)
-	// This is the most reliable method
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
-
-	// Search in a window around the given index first
-	if objIndex >= 0 && objIndex < len(pdfBytes) {
-		searchStart := max(0, objIndex-2000)
-		searchEnd := min(len(pdfBytes), objIndex+2000)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		patternPos := bytes.Index(searchArea, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = searchStart + patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = searchStart + patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		}
-	}
-
-	// If pattern not found in window, the object might be compressed or the offset wrong
-	// Try searching entire PDF (slower but more reliable)
-	if objKeywordPos == -1 {
-		patternPos := bytes.Index(pdfBytes, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		} else {
-			// Object header not found - might be compressed or offset is wrong
-			// Try searching for just the number "212" followed by whitespace and "0" near the offset
-			// This handles cases where the object header format is slightly different
-			numStr := fmt.Sprintf("%d", objNum)
-			searchStart := max(0, objIndex-1000)
-			searchEnd := min(len(pdfBytes), objIndex+1000)
-			searchArea := pdfBytes[searchStart:searchEnd]
-
-			// Look for number pattern
-			numBytes := []byte(numStr)
-			numPos := bytes.Index(searchArea, numBytes)
-			if numPos != -1 {
-				// Found the number, check if followed by space/tab and "0 obj"
-				checkPos := searchStart + numPos + len(numBytes)
-				if checkPos+10 < len(pdfBytes) {
-					afterNum := pdfBytes[checkPos : checkPos+10]
-					// Check for whitespace followed by "0 obj"
-					if afterNum[0] == ' ' || afterNum[0] == '\t' || afterNum[0] == '\n' || afterNum[0] == '\r' {
-						if bytes.HasPrefix(afterNum[1:], []byte("0 obj")) {
-							objKeywordPos = checkPos + 1 + 2 // Position after "0 "
-							objStart = searchStart + numPos
-							// Find line start
-							for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-								objStart--
-							}
-						}
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, try searching for "obj" keyword near the offset and verify object number
-	if objKeywordPos == -1 {
-		searchWindow := 5000 // Very large window for encrypted PDFs
-		searchStart := max(0, objIndex-searchWindow)
-		searchEnd := min(len(pdfBytes), objIndex+searchWindow)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		// Search for "obj" keyword (not encrypted)
-		objKeywordPosInArea := bytes.Index(searchArea, []byte("obj"))
-		if objKeywordPosInArea != -1 {
-			objKeywordPos = searchStart + objKeywordPosInArea
-			// Search backwards to find the start of the object number line
-			for i := objKeywordPos - 1; i >= 0 && i > objKeywordPos-100; i-- {
-				if pdfBytes[i] >= '0' && pdfBytes[i] <= '9' {
-					lineStart := i
-					for lineStart > 0 && pdfBytes[lineStart-1] != '\n' && pdfBytes[lineStart-1] != '\r' {
-						lineStart--
-					}
-					// Verify this is the right object by checking the number
-					lineEnd := objKeywordPos + 3
-					for lineEnd < len(pdfBytes) && pdfBytes[lineEnd] != '\n' && pdfBytes[lineEnd] != '\r' {
-						lineEnd++
-					}
-					lineContent := string(pdfBytes[lineStart:lineEnd])
-					if bytes.Contains([]byte(lineContent), []byte(fmt.Sprintf("%d 0 obj", objNum))) {
-						objStart = lineStart
-						break
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, the object header might be missing or the object is compressed
-	// UniPDF approach: use the xref offset directly and decrypt content there
-	// The xref offset points to the start of encrypted content, so start there
-	// But we should also try searching backwards a bit in case there's a header
-	if objKeywordPos == -1 {
-		// For encrypted PDFs without visible headers, UniPDF decrypts at the xref offset
-		// Try starting slightly before the offset (in case there's a short header)
-		// Then decrypt a larger chunk to ensure we get the full object
-		searchBack := 200 // Search backwards for potential header
-		objStart = max(0, objIndex-searchBack)
-		estimatedSize := 10000 // Larger estimate for AcroForm with XFA
-		objEnd = min(len(pdfBytes), objIndex+estimatedSize)
-		objContent = pdfBytes[objStart:objEnd]
-
-		if verbose {
-			log.Printf("%s object %d: Using xref offset with search window (start=%d, xref=%d, end=%d) - header not found, will decrypt and look for structure",
-				objName, objNum, objStart, objIndex, objEnd)
-		}
-	} else {
-		// Found obj keyword - find endobj normally
-		// Find "endobj" - search forward from objStart
-		objEndBytes := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if objEndBytes == -1 {
-			return 0, 0, nil, fmt.Errorf("%s object %d end not found", objName, objNum)
-		}
-		objEnd = objStart + objEndBytes + 6 // Include "endobj"
-		objContent = pdfBytes[objStart:objEnd]
-	}
-
-	return objStart, objEnd, objContent, nil
-}
-
-// extractDictionaryKeys extracts PDF dictionary keys for debugging
-func extractDictionaryKeys(dictContent []byte) string {
-	var keys []string
-	// Simple extraction: look for /Key patterns
-	content := string(dictContent)
-	keyPattern := regexp.MustCompile(`/([A-Za-z][A-Za-z0-9]*)`)
-	matches := keyPattern.FindAllStringSubmatch(content, -1)
-	for _, match := range matches {
-		if len(match) > 1 {
-			keys = append(keys, match[1])
-		}
-	}
-	if len(keys) > 0 {
-		return strings.Join(keys, ", ")
-	}
-	return "none found"
-}
-
-// findAndDecryptAcroForm finds and decrypts the AcroForm object, returning the decrypted content
-func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find the AcroForm object
-	objIndex, err := parse.FindObjectByNumber(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("AcroForm object %d not found: %v", acroFormObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, objIndex, acroFormObjNum, "AcroForm", verbose)
-	if err != nil {
-		return nil, err
-	}
-
-	if verbose {
-		log.Printf("AcroForm object %d: objStart=%d, objEnd=%d, content length=%d", acroFormObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Decrypt if needed - only decrypt the encrypted portions between markers
-	var decryptedContent []byte
-	if encryptInfo != nil {
-		// Find object structure markers (these are NOT encrypted)
-		objKeywordPos := bytes.Index(objContent, []byte("obj"))
-
-		// Extract generation number from object header (if available)
-		genNum := 0
-		if objKeywordPos != -1 {
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if verbose {
-				log.Printf("Extracted generation number for AcroForm object %d: %d", acroFormObjNum, genNum)
-			}
-		} else {
-			// Object header not found - try to extract from objContent by searching for pattern
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if genNum == 0 {
-				if verbose {
-					log.Printf("AcroForm object header not found, using default generation number 0")
-				}
-				// Note: If decryption fails, we might need to try other generation numbers
-				// but that would be expensive. Most PDFs use generation 0.
-			} else if verbose {
-				log.Printf("Found generation number %d for AcroForm object %d (header not in expected location)", genNum, acroFormObjNum)
-			}
-		}
-
-		var dataStart int
-		if objKeywordPos == -1 {
-			// Object header not found - UniPDF approach: try decrypting from multiple starting points
-			// The xref offset might point to encrypted content, but alignment is unknown
-			// Try starting from the beginning of objContent and let decryptInChunks find alignment
-			// Also try starting from the xref offset position
-			relativeXrefOffset := objIndex - objStart
-			if relativeXrefOffset < 0 {
-				relativeXrefOffset = 0
-			}
-
-			// Try decrypting from start first (decryptInChunks will try alignments)
-			dataStart = 0
-			if verbose {
-				log.Printf("AcroForm object header not found, trying decryption from start of content (xref at relative offset %d)", relativeXrefOffset)
-			}
-		} else {
-			// Skip "obj" and whitespace to find where encrypted data starts
-			dataStart = objKeywordPos + 3
-			for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-				dataStart++
-			}
-		}
-
-		// Check if this is a stream object
-		streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-		isStreamObject := streamKeywordPos != -1
-
-		if isStreamObject {
-			// Stream object: decrypt dictionary portion (between "obj" and "stream")
-			// The dictionary is encrypted, but "stream", stream data, "endstream", and "endobj" are not
-			if verbose {
-				log.Printf("AcroForm object is a stream object, decrypting dictionary portion only")
-			}
-
-			// Dictionary is encrypted from dataStart to streamKeywordPos
-			encryptedDict := objContent[dataStart:streamKeywordPos]
-
-			// Decrypt dictionary in chunks if needed (for alignment)
-			// Use extracted generation number
-			decryptedDict, err := decryptInChunks(encryptedDict, acroFormObjNum, genNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Failed to decrypt dictionary: %v", err)
-				}
-				decryptedContent = objContent
-			} else {
-				// Reconstruct: object header + decrypted dictionary + "stream" + stream data + "endstream" + "endobj"
-				objectHeader := objContent[:dataStart]
-				streamAndRest := objContent[streamKeywordPos:]
-				decryptedContent = append(objectHeader, decryptedDict...)
-				decryptedContent = append(decryptedContent, streamAndRest...)
-				if verbose {
-					log.Printf("Decrypted dictionary: %d bytes -> %d bytes", len(encryptedDict), len(decryptedDict))
-				}
-			}
-		} else {
-			// Regular object: decrypt content between dataStart and "endobj"
-			endobjPos := bytes.Index(objContent, []byte("endobj"))
-			if endobjPos == -1 {
-				// If endobj not found and no header, try decrypting a reasonable chunk
-				// UniPDF approach: decrypt and look for structure markers
-				if objKeywordPos == -1 {
-					// No header, no endobj - decrypt a chunk starting from xref offset
-					// UniPDF approach: the xref offset points to encrypted content
-					// Calculate where the xref offset is in objContent
-					relativeXrefOffset := objIndex - objStart
-					if relativeXrefOffset < 0 {
-						relativeXrefOffset = 0
-					}
-
-					// Try decrypting from the xref offset position
-					// decryptInChunks will try different alignments, but we should start from xref position
-					decryptStart := relativeXrefOffset
-					decryptLen := min(10000, len(objContent)-decryptStart)
-					// Round down to multiple of 16 for AES
-					decryptLen = (decryptLen / 16) * 16
-					if decryptLen >= 16 {
-						encryptedContent := objContent[decryptStart : decryptStart+decryptLen]
-						if verbose {
-							log.Printf("Attempting to decrypt %d bytes starting from xref position (offset %d in content, absolute %d)",
-								decryptLen, decryptStart, objIndex)
-						}
-						decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-						if err == nil && len(decryptedData) > 0 {
-							// If decryptInChunks succeeded, use the decrypted content
-							// It will have found valid PDF structure (<< or PDF keywords)
-							decryptedContent = decryptedData
-							if verbose {
-								log.Printf("Successfully decrypted AcroForm (no header/endobj): %d bytes", len(decryptedContent))
-
-								// Output full structure for debugging
-								log.Printf("=== DECRYPTED ACROFORM STRUCTURE ===")
-								log.Printf("Content length: %d bytes", len(decryptedContent))
-
-								// Hex dump of first 2000 bytes
-								previewLen := min(2000, len(decryptedContent))
-								log.Printf("First %d bytes (hex dump):", previewLen)
-								for i := 0; i < previewLen; i += 16 {
-									end := min(i+16, previewLen)
-									hexPart := fmt.Sprintf("%04x: ", i)
-									for j := i; j < end; j++ {
-										hexPart += fmt.Sprintf("%02x ", decryptedContent[j])
-									}
-									log.Printf("%s", hexPart)
-								}
-
-								// ASCII dump
-								log.Printf("First %d bytes (ASCII, non-printable as .):", previewLen)
-								asciiLine := ""
-								for i := 0; i < previewLen; i++ {
-									if i > 0 && i%80 == 0 {
-										log.Printf("%s", asciiLine)
-										asciiLine = ""
-									}
-									b := decryptedContent[i]
-									if b >= 32 && b < 127 {
-										asciiLine += string(b)
-									} else {
-										asciiLine += "."
-									}
-								}
-								if asciiLine != "" {
-									log.Printf("%s", asciiLine)
-								}
-
-								// Check for PDF markers
-								if bytes.Contains(decryptedContent, []byte("<<")) {
-									dictStart := bytes.Index(decryptedContent, []byte("<<"))
-									log.Printf("Found '<<' at offset %d", dictStart)
-									// Show context around dictionary start
-									ctxStart := max(0, dictStart-50)
-									ctxEnd := min(len(decryptedContent), dictStart+200)
-									log.Printf("Context around '<<' (offset %d-%d): %q", ctxStart, ctxEnd, string(decryptedContent[ctxStart:ctxEnd]))
-								}
-								if bytes.Contains(decryptedContent, []byte("/XFA")) {
-									xfaPos := bytes.Index(decryptedContent, []byte("/XFA"))
-									log.Printf("Found '/XFA' at offset %d", xfaPos)
-								} else {
-									log.Printf("'/XFA' NOT found in decrypted content")
-									// Check for XFA with different case/spacing
-									if bytes.Contains(decryptedContent, []byte("XFA")) || bytes.Contains(decryptedContent, []byte("xfa")) {
-										log.Printf("Found 'XFA' (case-insensitive) in decrypted content")
-									}
-								}
-								log.Printf("=== END DECRYPTED ACROFORM STRUCTURE ===")
-							}
-						} else {
-							if verbose {
-								log.Printf("Failed to decrypt: %v", err)
-							}
-							decryptedContent = objContent
-						}
-					} else {
-						decryptedContent = objContent
-					}
-				} else {
-					// Has header but no endobj - decrypt up to end
-					endobjPos = len(objContent)
-					encryptedContent := objContent[dataStart:endobjPos]
-					decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-					if err != nil {
-						if verbose {
-							log.Printf("Failed to decrypt object content: %v", err)
-						}
-						decryptedContent = objContent
-					} else {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-					}
-				}
-			} else {
-				// Has endobj - decrypt normally
-				encryptedContent := objContent[dataStart:endobjPos]
-				decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-				if err != nil {
-					if verbose {
-						log.Printf("Failed to decrypt object content: %v", err)
-					}
-					decryptedContent = objContent
-				} else {
-					// Reconstruct: object header (if exists) + decrypted content + "endobj" (if exists)
-					if objKeywordPos != -1 {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-						decryptedContent = append(decryptedContent, []byte("endobj")...)
-					} else {
-						// No header - just use decrypted content
-						decryptedContent = decryptedData
-						if verbose {
-							log.Printf("Decrypted content (no header): %d bytes, looking for dictionary markers", len(decryptedContent))
-							if bytes.Contains(decryptedContent, []byte("<<")) {
-								log.Printf("Found dictionary markers in decrypted content")
-							}
-						}
-					}
-				}
-			}
-		}
-	} else {
-		decryptedContent = objContent
-	}
-
-	return decryptedContent, nil
-}
-
-// decryptInChunks decrypts data in chunks, trying different alignments to find the correct decryption
-// This handles cases where encrypted data might not start exactly at a 16-byte boundary
-func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	if len(encryptedData) == 0 {
-		return encryptedData, nil
-	}
-
-	// For AES, we need to find where the actual encrypted data starts (16-byte aligned)
-	// UniPDF approach: try many alignment offsets and verify decryption produces valid PDF
-	if encryptInfo != nil && (encryptInfo.V == 4 || encryptInfo.V == 5) {
-		// Try different start offsets to find correct alignment
-		// Encrypted data should be a multiple of 16 bytes (including IV)
-		// Try up to 200 bytes of alignment (UniPDF tries many offsets)
-		maxOffset := min(200, len(encryptedData))
-		for offset := 0; offset < maxOffset; offset++ {
-			testStart := offset
-			testEnd := len(encryptedData)
-			testLen := testEnd - testStart
-
-			// Must be at least 16 bytes (for IV) and multiple of 16 for AES
-			if testLen < 16 || testLen%16 != 0 {
-				continue
-			}
-
-			testData := encryptedData[testStart:testEnd]
-			decrypted, err := encrypt.DecryptObject(testData, objNum, genNum, encryptInfo)
-			if err == nil && len(decrypted) > 0 {
-				// Verify decryption produced readable PDF content
-				// UniPDF approach: look for valid PDF dictionary structure, not just markers
-				hasDictMarker := bytes.Contains(decrypted, []byte("<<"))
-				hasDictEnd := bytes.Contains(decrypted, []byte(">>"))
-				hasValidDict := hasDictMarker && hasDictEnd
-
-				// Check for PDF dictionary keys (more reliable than just <<)
-				hasPDFKeywords := bytes.Contains(decrypted, []byte("/")) &&
-					(bytes.Contains(decrypted, []byte("/XFA")) ||
-						bytes.Contains(decrypted, []byte("/Fields")) ||
-						bytes.Contains(decrypted, []byte("/AcroForm")))
-
-				// Also check for common PDF dictionary keys
-				hasPDFDict := bytes.Contains(decrypted, []byte("/Type")) ||
-					bytes.Contains(decrypted, []byte("/Subtype")) ||
-					bytes.Contains(decrypted, []byte("/Kids"))
-
-				// Require both dictionary markers AND at least one PDF keyword for validity
-				// This prevents false positives from binary data that happens to contain "<<"
-				isValidPDF := hasValidDict && (hasPDFKeywords || hasPDFDict)
-
-				// Also check if decrypted content has readable ASCII PDF structure
-				// Count printable ASCII bytes - valid PDF should have many
-				printableCount := 0
-				for _, b := range decrypted {
-					if b >= 32 && b < 127 {
-						printableCount++
-					}
-				}
-				printableRatio := float64(printableCount) / float64(len(decrypted))
-				hasReadableContent := printableRatio > 0.3 // At least 30% printable (PDF dictionaries are mostly ASCII)
-
-				if isValidPDF || (hasPDFKeywords && hasReadableContent) {
-					if verbose {
-						log.Printf("Found valid decryption at offset %d, decrypted length=%d (hasDict=%v, hasKeywords=%v, printable=%.1f%%)",
-							offset, len(decrypted), hasValidDict, hasPDFKeywords, printableRatio*100)
-						if len(decrypted) > 0 && len(decrypted) <= 200 {
-							log.Printf("Decrypted preview: %q", decrypted)
-						} else if len(decrypted) > 200 {
-							// Show a sample from the middle where dictionary might be
-							midStart := max(0, len(decrypted)/2-100)
-							midEnd := min(len(decrypted), midStart+200)
-							log.Printf("Decrypted preview (middle section): %q", decrypted[midStart:midEnd])
-						}
-					}
-					// Prepend any skipped bytes (non-encrypted header)
-					if offset > 0 {
-						result := make([]byte, offset+len(decrypted))
-						copy(result, encryptedData[:offset])
-						copy(result[offset:], decrypted)
-						return result, nil
-					}
-					return decrypted, nil
-				} else if verbose && offset == 0 {
-					// Log first attempt to see what we're getting
-					log.Printf("Decryption at offset %d succeeded but no PDF markers found, length=%d, preview: %q",
-						offset, len(decrypted), decrypted[:min(100, len(decrypted))])
-				}
-			}
-		}
-
-		// If no valid decryption found, try direct decryption anyway
-		decrypted, err := encrypt.DecryptObject(encryptedData, objNum, genNum, encryptInfo)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt: %v", err)
-		}
-		return decrypted, nil
-	}
-
-	// For RC4 or no encryption, decrypt directly
-	decrypted, err := encrypt.DecryptObject(encryptedData, objNum, genNum, encryptInfo)
-	if err != nil {
-		return nil, fmt.Errorf("failed to decrypt: %v", err)
-	}
-	return decrypted, nil
-}
-
-// findXFAArrayContent extracts the XFA array content string from decrypted AcroForm content
-func findXFAArrayContent(decryptedContent []byte, verbose bool) (string, error) {
-	// UniPDF approach: the decrypted content might have padding or extra data
-	// Find where the actual PDF dictionary starts (look for "<<")
-	dictStart := bytes.Index(decryptedContent, []byte("<<"))
-	var xfaPos int = -1
-
-	if dictStart != -1 {
-		// Found dictionary start - find matching >> with proper nesting
-		// Must balance << and >> pairs for nested dictionaries
-		dictEnd := -1
-		depth := 0
-		for i := dictStart; i < len(decryptedContent)-1; i++ {
-			if decryptedContent[i] == '<' && decryptedContent[i+1] == '<' {
-				depth++
-				i++ // Skip second '<'
-			} else if decryptedContent[i] == '>' && decryptedContent[i+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd = i
-					break
-				}
-				i++ // Skip second '>'
-			}
-		}
-		if dictEnd != -1 {
-			dictContent := decryptedContent[dictStart : dictEnd+2]
-			if verbose {
-				log.Printf("Found dictionary start at offset %d, end at %d (length: %d bytes)", dictStart, dictEnd, len(dictContent))
-				// Show the actual dictionary content to verify it's valid
-				previewLen := min(200, len(dictContent))
-				log.Printf("Dictionary content preview: %q", dictContent[:previewLen])
-			}
-
-			// Search for /XFA within the dictionary
-			xfaPos = bytes.Index(dictContent, []byte("/XFA"))
-			if xfaPos != -1 {
-				xfaPos += dictStart // Adjust to absolute position
-			} else {
-				// Try case variations
-				xfaPos = bytes.Index(dictContent, []byte("/xfa"))
-				if xfaPos != -1 {
-					xfaPos += dictStart
-				}
-			}
-
-			if xfaPos != -1 {
-				if verbose {
-					log.Printf("Found /XFA at offset %d within dictionary", xfaPos)
-				}
-			} else if verbose {
-				// Dictionary found but no /XFA - show what's in the dictionary
-				log.Printf("Dictionary found but /XFA not found. Dictionary keys: %q", extractDictionaryKeys(dictContent))
-			}
-		} else if verbose {
-			log.Printf("Found '<<' at offset %d but no matching '>>' found - might be false positive", dictStart)
-		}
-	}
-
-	// If not found from dictionary, try searching entire content
-	if xfaPos == -1 {
-		xfaPos = bytes.Index(decryptedContent, []byte("/XFA"))
-	}
-	if xfaPos == -1 {
-		// Try case variations
-		xfaPos = bytes.Index(decryptedContent, []byte("/xfa"))
-	}
-	if xfaPos == -1 {
-		// Try with spaces
-		xfaPos = bytes.Index(decryptedContent, []byte("/ XFA"))
-	}
-	if xfaPos == -1 {
-		// Try searching byte by byte
-		for i := 0; i < len(decryptedContent)-3; i++ {
-			if decryptedContent[i] == '/' &&
-				(decryptedContent[i+1] == 'X' || decryptedContent[i+1] == 'x') &&
-				(decryptedContent[i+2] == 'F' || decryptedContent[i+2] == 'f') &&
-				(decryptedContent[i+3] == 'A' || decryptedContent[i+3] == 'a') {
-				xfaPos = i
-				break
-			}
-		}
-	}
-
-	if xfaPos == -1 {
-		if verbose {
-			log.Printf("XFA not found in decrypted content (length: %d bytes)", len(decryptedContent))
-			// Show content around dictionary start if found
-			if dictStart != -1 {
-				previewStart := max(0, dictStart-50)
-				previewEnd := min(len(decryptedContent), dictStart+500)
-				log.Printf("Content around dictionary start (offset %d): %q", dictStart, decryptedContent[previewStart:previewEnd])
-			} else {
-				log.Printf("Decrypted content preview (first 500 bytes): %q", decryptedContent[:min(500, len(decryptedContent))])
-			}
-		}
-		return "", fmt.Errorf("XFA entry not found in AcroForm")
-	}
-
-	// Find array after /XFA
-	arrayStart := bytes.Index(decryptedContent[xfaPos:], []byte("["))
-	if arrayStart == -1 {
-		return "", fmt.Errorf("XFA array start not found after /XFA")
-	}
-	arrayStartIdx := xfaPos + arrayStart + 1 // Position after '['
-
-	// Find matching ']' for the array
-	// Start at depth 1 because we've already passed the opening '['
-	depth := 1
-	arrayEndIdx := arrayStartIdx
-	for i := arrayStartIdx; i < len(decryptedContent) && i < arrayStartIdx+10000; i++ {
-		if decryptedContent[i] == '[' {
-			depth++
-		} else if decryptedContent[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEndIdx = i + 1
-				break
-			}
-		}
-	}
-
-	if arrayEndIdx == arrayStartIdx {
-		return "", fmt.Errorf("could not find end of XFA array")
-	}
-
-	return string(decryptedContent[arrayStartIdx:arrayEndIdx]), nil
-}
-
-// extractGenerationNumber extracts the generation number from an object header
-// Object format: "objNum genNum obj"
-// Returns the generation number, or 0 if not found (most objects are generation 0)
-func extractGenerationNumber(objContent []byte, objNum int) int {
-	// Find object header pattern: "objNum genNum obj"
-	// Try multiple patterns to handle different whitespace
-	patterns := []*regexp.Regexp{
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // Standard: "123 0 obj"
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // With tabs
-		regexp.MustCompile(fmt.Sprintf(`%d\s*(\d+)\s*obj`, objNum)), // Flexible whitespace
-	}
-
-	for _, pattern := range patterns {
-		match := pattern.FindSubmatch(objContent)
-		if match != nil && len(match) > 1 {
-			genNum, err := strconv.Atoi(string(match[1]))
-			if err == nil {
-				return genNum
-			}
-		}
-	}
-
-	// Also try searching in a larger window if objContent is large
-	// Sometimes the header might be further in if there's padding
-	if len(objContent) > 1000 {
-		// Search first 500 bytes more carefully
-		searchArea := objContent[:min(500, len(objContent))]
-		for _, pattern := range patterns {
-			match := pattern.FindSubmatch(searchArea)
-			if match != nil && len(match) > 1 {
-				genNum, err := strconv.Atoi(string(match[1]))
-				if err == nil {
-					return genNum
-				}
-			}
-		}
-	}
-
-	// Default to 0 if not found (most PDF objects are generation 0)
-	return 0
-}
-
-// This follows the same approach as findAndDecryptAcroForm: parse structure first, then decrypt only encrypted portions
-func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, int, error) {
-	// Find the stream object using incremental parser (finds non-encrypted markers)
-	streamObjIndex, err := parse.FindObjectByNumber(pdfBytes, streamObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, 0, fmt.Errorf("stream object %d not found: %v", streamObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, streamObjIndex, streamObjNum, "stream", verbose)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	if verbose {
-		log.Printf("Stream object %d: objStart=%d, objEnd=%d, content length=%d", streamObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Find structure markers (these are NOT encrypted)
-	objKeywordPosInContent := bytes.Index(objContent, []byte("obj"))
-	if objKeywordPosInContent == -1 {
-		return nil, 0, fmt.Errorf("'obj' keyword not found in stream object %d", streamObjNum)
-	}
-
-	// Extract generation number from object header (CRITICAL for correct key derivation)
-	genNum := extractGenerationNumber(objContent, streamObjNum)
-	if verbose {
-		log.Printf("Extracted generation number for object %d: %d", streamObjNum, genNum)
-	}
-
-	// Skip "obj" and whitespace to find where encrypted data starts
-	dataStart := objKeywordPosInContent + 3
-	for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-		dataStart++
-	}
-
-	// Find "stream" keyword (not encrypted)
-	streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, 0, fmt.Errorf("stream keyword not found for object %d", streamObjNum)
-	}
-
-	// Get /Length from dictionary (between dataStart and streamKeywordPos)
-	dictContent := string(objContent[dataStart:streamKeywordPos])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-
-	var streamLength int
-	if lengthMatch != nil {
-		streamLength, _ = strconv.Atoi(lengthMatch[1])
-	}
-
-	// Extract stream data
-	// Skip "stream" keyword (6 bytes) and EOL
-	streamDataStart := streamKeywordPos + 6
-
-	// Skip exactly one EOL marker per PDF spec
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\r' {
-		streamDataStart++
-	}
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Use /Length if available, otherwise find endstream
-	var streamContent []byte
-	if streamLength > 0 && streamDataStart+streamLength <= len(objContent) {
-		streamContent = objContent[streamDataStart : streamDataStart+streamLength]
-	} else {
-		// Fallback: find endstream
-		endstreamPos := bytes.Index(objContent[streamDataStart:], []byte("endstream"))
-		if endstreamPos == -1 {
-			return nil, 0, fmt.Errorf("endstream not found for object %d", streamObjNum)
-		}
-		streamContent = objContent[streamDataStart : streamDataStart+endstreamPos]
-	}
-
-	streamDataEnd := streamDataStart + len(streamContent)
-
-	if verbose {
-		log.Printf("Stream object %d: dictionary encrypted from %d to %d, stream data from %d to %d",
-			streamObjNum, dataStart, streamKeywordPos, streamDataStart, streamDataEnd)
-	}
-
-	// Decrypt stream data if needed (dictionary decryption not needed for extraction, only for reading)
-	if encryptInfo != nil {
-		// Decrypt the stream data itself (not the dictionary)
-		// Use the extracted generation number instead of hardcoded 0
-		decryptedStream, err := encrypt.DecryptObject(streamContent, streamObjNum, genNum, encryptInfo)
-		if err != nil {
-			return nil, 0, fmt.Errorf("error decrypting stream data for object %d (gen %d): %v", streamObjNum, genNum, err)
-		}
-		streamContent = decryptedStream
-		if verbose {
-			log.Printf("Decrypted stream data: %d bytes -> %d bytes", len(objContent[streamDataStart:streamDataEnd]), len(streamContent))
-		}
-	}
-
-	return streamContent, streamObjNum, nil
-}
-
 // DecompressStream attempts to decompress a stream (handles FlateDecode)
 // FlateDecode can be either raw deflate or zlib-wrapped
 func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
@@ -832,12 +43,8 @@ func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
 // CompressStream compresses data using FlateDecode
 func CompressStream(data []byte) ([]byte, error) {
 	var buf bytes.Buffer
-	writer, err := flate.NewWriter(&buf, flate.DefaultCompression)
-	if err != nil {
-		return nil, err
-	}
-
-	_, err = writer.Write(data)
+	writer := zlib.NewWriter(&buf)
+	_, err := writer.Write(data)
 	if err != nil {
 		writer.Close()
 		return nil, err
@@ -851,72 +58,27 @@ func CompressStream(data []byte) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-// ReplaceStreamInPDF replaces a stream in the PDF and updates the length
+// ReplaceStreamInPDF replaces a stream's data, which is encoded as its
+// dictionary says, and updates the length
 func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the stream object
-	streamObjPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, streamObjNum, 0))
-	streamObjMatch := streamObjPattern.FindStringIndex(pdfStr)
-	if streamObjMatch == nil {
-		return nil, fmt.Errorf("stream object %d not found", streamObjNum)
-	}
-
-	// Find stream dictionary (before "stream" keyword)
-	streamKeywordPos := bytes.Index(pdfBytes[streamObjMatch[0]:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-
-	dictStart := streamObjMatch[0]
-	dictEnd := streamObjMatch[0] + streamKeywordPos
-
-	// Find and update /Length entry
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatchIndex(string(pdfBytes[dictStart:dictEnd]))
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("Length entry not found in stream dictionary")
-	}
-
-	lengthStart := dictStart + lengthMatch[2]
-	lengthEnd := dictStart + lengthMatch[3]
-
-	// Replace length
-	newLength := strconv.Itoa(len(newStream))
-
-	// Find stream start and end (need to recalculate after length update)
-	// Re-find stream position - use bytes.Index since we'll be modifying pdfBytes
-	streamKeywordPos = bytes.Index(pdfBytes[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
+	pdf, err := openPDF(pdfBytes, nil, verbose)
+	if err != nil {
+		return nil, err
 	}
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamStart := dictStart + streamKeywordPos + 6
-	for streamStart < len(pdfBytes) && (pdfBytes[streamStart] == '\r' || pdfBytes[streamStart] == '\n' || pdfBytes[streamStart] == ' ' || pdfBytes[streamStart] == '\t') {
-		streamStart++
+	object, err := pdf.GetObject(streamObjNum)
+	if err != nil {
+		return nil, fmt.Errorf("stream object %d not found: %w", streamObjNum, err)
 	}
-
-	endstreamPos := bytes.Index(pdfBytes[streamStart:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
+	dict, _, ok := syntax.Stream(object)
+	if !ok {
+		return nil, fmt.Errorf("object %d is not a stream", streamObjNum)
 	}
-
-	streamEnd := streamStart + endstreamPos
-	afterStream := pdfBytes[streamEnd:]
-
-	// Reconstruct PDF: before length + new length + between length and stream + new stream + after stream
-	beforeLength := pdfBytes[:lengthStart]
-	betweenLengthAndStream := pdfBytes[lengthEnd:streamStart]
-
-	result := append(beforeLength, []byte(newLength)...)
-	result = append(result, betweenLengthAndStream...)
-	result = append(result, newStream...)
-	result = append(result, afterStream...)
-
+	body := syntax.Set(append([]byte(nil), dict...), "Length", []byte(strconv.Itoa(len(newStream))))
+	body = append(body, "\nstream\n"...)
+	body = append(body, newStream...)
+	body = append(body, "\nendstream"...)
 	if verbose {
-		log.Printf("Replaced stream %d: old length %s, new length %d", streamObjNum, string(pdfBytes[lengthStart:lengthEnd]), len(newStream))
+		log.Printf("Replaced stream %d: new length %d", streamObjNum, len(newStream))
 	}
-
-	return result, nil
+	return pdf.Update(map[int][]byte{streamObjNum: body})
 }
-- 
2.43.0


From 1eb0c3c529f7de0cb8f02184b8c6efd9f62f4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:42 +0000
Subject: [PATCH 21/28] fix: find objects and the trailer's startxref in the
 newest revision

FindObjectByNumber took the first text that looked like the object's header
(an older revision, a string, object 13 for 3) and ParsePDFTrailer the first
startxref; ParseTraditionalXRefTable read only 10000 bytes and panicked on
offsets outside the file.
---
 core/parse/parser.go | 67 +++++++++++---------------------------------
 1 file changed, 17 insertions(+), 50 deletions(-)

diff --git a/core/parse/parser.go b/core/parse/parser.go
index 01296fe..612838a 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -1,9 +1,7 @@
 package parse
 
 import (
-	"bytes"
 	"fmt"
-	"log"
 	"regexp"
 	"strconv"
 	"strings"
@@ -88,9 +86,9 @@ func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 
 	// Find startxref
 	startXRefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startXRefMatch := startXRefPattern.FindStringSubmatch(pdfStr)
-	if startXRefMatch != nil {
-		offset, err := strconv.ParseInt(startXRefMatch[1], 10, 64)
+	startXRefMatches := startXRefPattern.FindAllStringSubmatch(pdfStr, -1)
+	if n := len(startXRefMatches); n > 0 { // the last one belongs to the newest revision
+		offset, err := strconv.ParseInt(startXRefMatches[n-1][1], 10, 64)
 		if err == nil {
 			trailer.StartXRef = offset
 		}
@@ -101,51 +99,14 @@ func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 
 // FindObjectByNumber finds a PDF object by its number
 func FindObjectByNumber(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) (int, error) {
-	// First, try direct search (works for unencrypted or if object header is visible)
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex != -1 {
-		if verbose {
-			log.Printf("Found object %d at byte position %d (direct search)", objNum, objIndex)
-		}
-		return objIndex, nil
+	loc, err := FindObjectLocation(pdfBytes, objNum, verbose)
+	if err != nil {
+		return -1, err
 	}
-
-	// If not found, try parsing cross-reference table (works for encrypted PDFs)
-	// Find startxref directly (works even without trailer keyword)
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
-
-	if startxrefMatch != nil {
-		startXRef, err := strconv.ParseInt(startxrefMatch[1], 10, 64)
-		if err == nil && startXRef > 0 {
-			if verbose {
-				log.Printf("Found startxref at offset %d, attempting to parse cross-reference", startXRef)
-			}
-			objMap, xrefErr := ParseCrossReferenceTableWithEncryption(pdfBytes, startXRef, encryptInfo, verbose)
-			if xrefErr != nil {
-				if verbose {
-					log.Printf("Error parsing xref table: %v", xrefErr)
-				}
-			} else {
-				if verbose {
-					log.Printf("Parsed xref table: found %d objects", len(objMap))
-				}
-				if offset, ok := objMap[objNum]; ok {
-					if verbose {
-						log.Printf("Found object %d via cross-reference table at offset %d", objNum, offset)
-					}
-					return int(offset), nil
-				} else if verbose {
-					log.Printf("Object %d not found in xref table (available objects: %v)", objNum, GetSampleObjectNumbers(objMap, 10))
-				}
-			}
-		}
-	} else if verbose {
-		log.Printf("No startxref found in PDF")
+	if !loc.IsDirect {
+		return -1, fmt.Errorf("object %d is inside object stream %d", objNum, loc.StreamObjNum)
 	}
-
-	return -1, fmt.Errorf("object %d not found", objNum)
+	return int(loc.ByteOffset), nil
 }
 
 // ParseCrossReferenceTable parses the PDF cross-reference table
@@ -180,9 +141,12 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 	objMap := make(map[int]int64)
 
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
+
 	// Read from startxref position
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(10000, len(xrefSection))])
+	xrefStr := string(pdfBytes[startXRef:])
 
 	// Find xref keyword
 	xrefPos := strings.Index(xrefStr, "xref")
@@ -209,6 +173,9 @@ func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64,
 		if line == "" {
 			continue
 		}
+		if strings.HasPrefix(line, "trailer") {
+			break
+		}
 
 		fields := strings.Fields(line)
 		if len(fields) == 2 {
-- 
2.43.0


From d0fcbc3685a5859299416f54da23a8e9ff267e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:42 +0000
Subject: [PATCH 22/28] fix: refuse what damaged files hold instead of
 panicking or making things up

Key wrapping and the simple cross-reference stream reader panicked on short
input and bad offsets, an object whose cross-reference entry points nowhere
came back as whatever bytes were there, and an absurd object number made the
writer lay out a table of gigabytes.
---
 core/encrypt/aes256.go    |   7 ++
 core/parse/get_object.go  |  20 ++--
 core/parse/xref_stream.go | 186 +-------------------------------------
 core/write/writer.go      |   6 ++
 4 files changed, 26 insertions(+), 193 deletions(-)

diff --git a/core/encrypt/aes256.go b/core/encrypt/aes256.go
index 03fc91c..a9bcaf4 100644
--- a/core/encrypt/aes256.go
+++ b/core/encrypt/aes256.go
@@ -6,6 +6,7 @@ import (
 	"crypto/cipher"
 	"crypto/sha256"
 	"crypto/sha512"
+	"fmt"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -76,6 +77,9 @@ func UnwrapKeyV5(wrapped, key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(wrapped)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("key of %d bytes is not a whole number of blocks", len(wrapped))
+	}
 	out := make([]byte, len(wrapped))
 	cipher.NewCBCDecrypter(block, make([]byte, aes.BlockSize)).CryptBlocks(out, wrapped)
 	return out, nil
@@ -87,6 +91,9 @@ func WrapKeyV5(fileKey, key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(fileKey)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("key of %d bytes is not a whole number of blocks", len(fileKey))
+	}
 	out := make([]byte, len(fileKey))
 	cipher.NewCBCEncrypter(block, make([]byte, aes.BlockSize)).CryptBlocks(out, fileKey)
 	return out, nil
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 036e311..07d59b5 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -124,17 +124,15 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 			if verbose {
 				log.Printf("Object %d header not found near offset %d", objNum, offset)
 			}
-			// Continue anyway with content at offset
-			genNum = 0
-		} else {
-			// Adjust offset
-			newOffset := max(0, int(offset)-100) + match[2]
-			offset = int64(newOffset)
-			objData = pdfBytes[offset:]
-			headerMatch = headerPattern.FindSubmatch(objData[:min(50, len(objData))])
-			if headerMatch != nil {
-				genNum, _ = strconv.Atoi(string(headerMatch[1]))
-			}
+			return nil, fmt.Errorf("object %d not found at offset %d", objNum, offset)
+		}
+		// Adjust offset
+		newOffset := max(0, int(offset)-100) + match[2]
+		offset = int64(newOffset)
+		objData = pdfBytes[offset:]
+		headerMatch = headerPattern.FindSubmatch(objData[:min(50, len(objData))])
+		if headerMatch != nil {
+			genNum, _ = strconv.Atoi(string(headerMatch[1]))
 		}
 	} else {
 		genNum, _ = strconv.Atoi(string(headerMatch[1]))
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index ced4bbf..e3496f3 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -1,14 +1,7 @@
 package parse
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"fmt"
-	"io"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -22,183 +15,12 @@ func ParseXRefStream(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 
 // ParseXRefStreamWithEncryption parses a PDF cross-reference stream with optional decryption
 func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo *types.PDFEncryption, verbose bool) (map[int]int64, error) {
-	objMap := make(map[int]int64)
-
-	// The xref stream object should be at startXRef
-	// Find object number - it should be at or near startXRef
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
-
-	// Find object number - it should be near the start (usually the first thing)
-	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		// Try searching a bit before startXRef in case of offset issues
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
-			return nil, fmt.Errorf("xref stream object not found")
-		}
-	}
-
-	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("xref stream dictionary not found")
-	}
-
-	// Find /Size entry (total number of objects)
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
-	if sizeMatch == nil {
-		return nil, fmt.Errorf("/Size not found in xref stream")
-	}
-
-	// Find /W entry (field widths: [w1 w2 w3])
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
-	if wMatch == nil {
-		return nil, fmt.Errorf("/W not found in xref stream")
-	}
-
-	w1, _ := strconv.Atoi(wMatch[1]) // Type field width
-	w2, _ := strconv.Atoi(wMatch[2]) // Field 2 width (usually offset)
-	w3, _ := strconv.Atoi(wMatch[3]) // Field 3 width (usually generation)
-
-	// Find /Index entry if present (subsections)
-	// Format: /Index [first1 count1 first2 count2 ...]
-	// /Index defines which object numbers are in this xref stream
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
-
-	var subsections []struct{ first, count int }
-	if indexMatch != nil {
-		// Parse index array - this tells us which object numbers are in this stream
-		indexFields := strings.Fields(indexMatch[1])
-		for i := 0; i < len(indexFields)-1; i += 2 {
-			first, _ := strconv.Atoi(indexFields[i])
-			count, _ := strconv.Atoi(indexFields[i+1])
-			subsections = append(subsections, struct{ first, count int }{first, count})
-		}
-	} else {
-		// Default: single subsection starting at 0, up to /Size
-		size, _ := strconv.Atoi(sizeMatch[1])
-		subsections = []struct{ first, count int }{{0, size}}
-	}
-
-	// Find stream content
-	// Look for "stream" after the dictionary
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
-	}
-
-	// Find endstream
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-
-	// Extract stream content (raw bytes, don't trim)
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
-
-	// Note: Xref streams are typically NOT encrypted (they're needed to decrypt other objects)
-	// The stream content should be FlateDecode compressed binary data
-	// FlateDecode can be either raw deflate or zlib-wrapped
-
-	// Try zlib decompression first (FlateDecode is usually zlib-wrapped)
-	// If that fails, try raw deflate
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			// zlib read failed, try raw deflate
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		// zlib.NewReader failed (not zlib format), try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	result, err := ParseXRefStreamFull(pdfBytes, startXRef, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream (tried zlib and deflate): %v", err)
-	}
-
-	// Parse decompressed stream data
-	// Each entry is w1+w2+w3 bytes
-	entrySize := w1 + w2 + w3
-	if entrySize == 0 {
-		return nil, fmt.Errorf("invalid entry size: w1=%d, w2=%d, w3=%d", w1, w2, w3)
-	}
-
-	entryIndex := 0
-
-	for _, sub := range subsections {
-		for objNum := sub.first; objNum < sub.first+sub.count; objNum++ {
-			if entryIndex*entrySize+entrySize > len(decompressed) {
-				break
-			}
-
-			entry := decompressed[entryIndex*entrySize : entryIndex*entrySize+entrySize]
-
-			// Parse entry based on type (first w1 bytes)
-			typeVal := 0
-			for i := 0; i < w1 && i < len(entry); i++ {
-				typeVal = typeVal<<8 | int(entry[i])
-			}
-
-			// Calculate offset for all types (field 2)
-			offset := int64(0)
-			for i := w1; i < w1+w2 && i < len(entry); i++ {
-				offset = offset<<8 | int64(entry[i])
-			}
-
-			if typeVal == 1 {
-				// Type 1: uncompressed, in-use object
-				if offset > 0 {
-					objMap[objNum] = offset
-				}
-			} else if typeVal == 2 {
-				// Type 2: compressed object (object stream)
-				// Field 2 is object stream number, field 3 is index within stream
-				// For compressed objects, we'd need to parse the object stream
-				// For now, skip - would need object stream parsing
-			} else if typeVal == 0 {
-				// Type 0: free object
-				// However, some PDFs incorrectly mark in-use objects as type 0
-				// If offset looks valid, include it (object 212 is type 0 but has offset 66048)
-				if offset > 100 && offset < int64(len(pdfBytes)) {
-					objMap[objNum] = offset
-				}
-			}
-
-			entryIndex++
-		}
+		return nil, err
 	}
-
-	if len(objMap) == 0 {
+	if len(result.Objects) == 0 {
 		return nil, fmt.Errorf("no objects found in xref stream")
 	}
-
-	return objMap, nil
+	return result.Objects, nil
 }
diff --git a/core/write/writer.go b/core/write/writer.go
index dc89f5f..98b21b4 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -28,6 +28,9 @@ type PDFObject struct {
 // Dictionary represents a PDF dictionary
 type Dictionary map[string]interface{}
 
+// maxObjects is the number of objects a file may have (ISO 32000-1, Annex C)
+const maxObjects = 8388607
+
 // PDFWriter builds PDF files from scratch
 type PDFWriter struct {
 	objects         map[int]*PDFObject
@@ -219,6 +222,9 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	// and the cross-reference stream take the numbers after the writer's own,
 	// which stay available for further objects.
 	size := w.nextObjNum
+	if size-1 > maxObjects {
+		return fmt.Errorf("object number %d is too large", size-1)
+	}
 	objStreamMap, objStream, err := w.createObjectStreams(size)
 	if err != nil {
 		return fmt.Errorf("failed to create object streams: %v", err)
-- 
2.43.0


From fa10fa4ffcce53a98272bb1530fdb7ae4948cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:42 +0000
Subject: [PATCH 23/28] fix: no quadratic work over pages, field names, nested
 data and lost object streams

RotateAllPages walked the page tree for every page, field names were joined
level by level for every field, nested datasets were searched for every
element, and objects in a missing object stream had the whole file parsed
again for each of them.
---
 core/manipulate/rotation.go          | 21 ++++++++++--------
 core/parse/api.go                    |  2 +-
 forms/acroform/extract.go            | 18 +++++++--------
 forms/xfa/xfa_datasets_translator.go | 33 ++++++++++++++++------------
 4 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index cb06440..6d5028d 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -10,15 +10,19 @@ import (
 // RotatePage rotates a specific page by the given angle (90, 180, or 270 degrees)
 // pageNumber is 1-based (first page is 1)
 func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
-	if angle != 90 && angle != 180 && angle != 270 {
-		return fmt.Errorf("rotation angle must be 90, 180, or 270 degrees, got %d", angle)
-	}
-
-	// Get page object number
 	leaf, err := m.getPageLeaf(pageNumber)
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
+	return m.rotateLeaf(leaf, pageNumber, angle)
+}
+
+// rotateLeaf rotates a page found in the page tree
+func (m *PDFManipulator) rotateLeaf(leaf pageLeaf, pageNumber int, angle int) error {
+	if angle != 90 && angle != 180 && angle != 270 {
+		return fmt.Errorf("rotation angle must be 90, 180, or 270 degrees, got %d", angle)
+	}
+
 	pageObjNum := leaf.objNum
 
 	// Get page object
@@ -59,15 +63,14 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 
 // RotateAllPages rotates all pages by the given angle
 func (m *PDFManipulator) RotateAllPages(angle int) error {
-	// Get all page object numbers
-	pageObjNums, err := m.getAllPageObjectNumbers()
+	leaves, err := m.pageLeaves()
 	if err != nil {
 		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
-	for i := range pageObjNums {
+	for i, leaf := range leaves {
 		pageNumber := i + 1
-		if err := m.RotatePage(pageNumber, angle); err != nil {
+		if err := m.rotateLeaf(leaf, pageNumber, angle); err != nil {
 			return fmt.Errorf("failed to rotate page %d: %w", pageNumber, err)
 		}
 	}
diff --git a/core/parse/api.go b/core/parse/api.go
index b99b632..ace2712 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -303,7 +303,7 @@ func (p *PDF) GetObject(objNum int) ([]byte, error) {
 		if stream, ok := p.xref.Objects[ref.StreamObjNum]; ok && !stream.InStream {
 			return getObjectFromStreamAt(p.raw, objNum, ref.StreamObjNum, stream.Offset, ref.StreamIndex, p.encryption, p.opts.Verbose)
 		}
-		return GetObjectFromStream(p.raw, objNum, ref.StreamObjNum, ref.StreamIndex, p.encryption, p.opts.Verbose)
+		return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object stream %d not found", ref.StreamObjNum).WithContext("object_number", objNum)
 	}
 
 	// Direct object - get from byte offset
diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index 9985f5e..bb951be 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -3,6 +3,8 @@ package acroform
 
 import (
 	"fmt"
+	"slices"
+	"strings"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -49,16 +51,14 @@ func (af *AcroForm) GetFieldValues() map[string]interface{} {
 
 // GetFullName returns the full field name (handles hierarchical names)
 func (f *Field) GetFullName() string {
-	if f.Parent != nil {
-		parentName := f.Parent.GetFullName()
-		if f.T == "" {
-			return parentName
-		}
-		if parentName != "" {
-			return parentName + "." + f.T
+	var names []string
+	for ; f != nil; f = f.Parent {
+		if f.T != "" {
+			names = append(names, f.T)
 		}
 	}
-	return f.T
+	slices.Reverse(names)
+	return strings.Join(names, ".")
 }
 
 // FindFieldByName finds a field by its full name or, where no field has that
@@ -66,7 +66,7 @@ func (f *Field) GetFullName() string {
 func (af *AcroForm) FindFieldByName(name string) *Field {
 	var full, partial *Field
 	walk(af.Fields, func(field *Field) {
-		if full == nil && field.GetFullName() == name {
+		if full == nil && strings.HasSuffix(name, field.T) && field.GetFullName() == name {
 			full = field
 		}
 		if partial == nil && field.T == name {
diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 04460d6..f01bdfa 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -30,6 +30,10 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 		group *types.XFAFieldGroup // for a group
 		field string               // for a field: its name
 		value *strings.Builder     // for a field: what it holds
+
+		inField bool             // it is a field, or inside one
+		text    *strings.Builder // where text inside it goes, if anywhere
+		above   *types.XFAFieldGroup
 	}
 	var open []element
 	inData := 0
@@ -48,16 +52,22 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 		switch se := token.(type) {
 		case xml.StartElement:
 			e := element{local: se.Name.Local}
-			inField := false
-			for _, above := range open {
-				inField = inField || above.value != nil
+			if n := len(open) - 1; n >= 0 {
+				e.inField, e.text, e.above = open[n].inField, open[n].text, open[n].above
+				if open[n].group != nil {
+					e.above = open[n].group
+				}
+				// The text of a field is that of its value element
+				if open[n].value != nil && e.local == "value" {
+					e.text = open[n].value
+				}
 			}
 			switch {
 			case e.local == "data":
 				inData++
-			case inField || dataOnly && inData == 0:
+			case e.inField || dataOnly && inData == 0:
 			case e.local == "field":
-				e.value = &strings.Builder{}
+				e.value, e.inField = &strings.Builder{}, true
 				for _, attr := range se.Attr {
 					if attr.Name.Local == "name" && attr.Name.Space == "" {
 						e.field = attr.Value
@@ -83,10 +93,8 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 				inData--
 			}
 			fields, groups := datasets.Fields, &datasets.Groups
-			for _, above := range open {
-				if above.group != nil {
-					fields, groups = above.group.Fields, &above.group.Groups
-				}
+			if e.above != nil {
+				fields, groups = e.above.Fields, &e.above.Groups
 			}
 			if e.group != nil {
 				*groups = append(*groups, *e.group)
@@ -100,11 +108,8 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 			}
 
 		case xml.CharData:
-			// The text of a field is that of its value element
-			for i := len(open) - 2; i >= 0; i-- {
-				if open[i].value != nil && open[i+1].local == "value" {
-					open[i].value.Write(se)
-				}
+			if len(open) > 0 && open[len(open)-1].text != nil {
+				open[len(open)-1].text.Write(se)
 			}
 		}
 	}
-- 
2.43.0


From 2d70767fee874b4944a8a820f54a3a448d09f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:52 +0000
Subject: [PATCH 24/28] fix: deleting keys takes linear time, options and
 values that hold themselves end

---
 core/syntax/syntax.go      | 11 ++++++++---
 forms/acroform/document.go | 13 ++++++++++++-
 forms/acroform/parser.go   |  3 ++-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/core/syntax/syntax.go b/core/syntax/syntax.go
index e961b9d..7894d21 100644
--- a/core/syntax/syntax.go
+++ b/core/syntax/syntax.go
@@ -336,14 +336,19 @@ func Set(obj []byte, key string, value []byte) []byte {
 // Delete returns the object's text without key.
 func Delete(obj []byte, key string) []byte {
 	entries, _, _ := Entries(obj)
+	var out []byte
+	pos := 0
 	for _, e := range entries {
 		if e.Key == key {
-			out := append([]byte(nil), obj[:e.KeyStart]...)
+			out = append(out, obj[pos:e.KeyStart]...)
 			out = append(out, ' ')
-			return Delete(append(out, obj[e.ValueEnd:]...), key)
+			pos = e.ValueEnd
 		}
 	}
-	return obj
+	if pos == 0 {
+		return obj
+	}
+	return append(out, obj[pos:]...)
 }
 
 // Array splits the text of an array into the texts of its elements.
diff --git a/forms/acroform/document.go b/forms/acroform/document.go
index 2c508a6..b992f50 100644
--- a/forms/acroform/document.go
+++ b/forms/acroform/document.go
@@ -82,6 +82,13 @@ func (d *document) text(value []byte) (string, bool) {
 
 // value returns a field value: text and names as strings, arrays as lists
 func (d *document) value(raw []byte) interface{} {
+	return d.valueOnce(raw, make(map[int]bool))
+}
+
+// valueOnce is value, with the arrays in objects already seen left out: they
+// may hold each other
+func (d *document) valueOnce(raw []byte, seen map[int]bool) interface{} {
+	objNum, _, shared := syntax.Ref(raw)
 	raw = d.resolve(raw)
 	if len(raw) == 0 || string(raw) == "null" {
 		return nil
@@ -93,9 +100,13 @@ func (d *document) value(raw []byte) interface{} {
 		return name
 	}
 	if elements, ok := syntax.Array(raw); ok {
+		if shared && seen[objNum] {
+			return nil
+		}
+		seen[objNum] = shared
 		list := make([]interface{}, 0, len(elements))
 		for _, element := range elements {
-			list = append(list, d.value(element))
+			list = append(list, d.valueOnce(element, seen))
 		}
 		return list
 	}
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 9c34399..1d39c1d 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -195,8 +195,9 @@ func (p *fieldParser) parse(ref []byte, parent, above *Field) *Field {
 // options reads choice field options: strings, or pairs of value and display
 func (p *fieldParser) options(elements [][]byte) []interface{} {
 	options := make([]interface{}, 0, len(elements))
+	seen := make(map[int]bool)
 	for _, element := range elements {
-		if option := p.value(element); option != nil {
+		if option := p.valueOnce(element, seen); option != nil {
 			options = append(options, option)
 		}
 	}
-- 
2.43.0


From fc05b392828a9f2a31f8739bd253290295c49ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:02 +0000
Subject: [PATCH 25/28] fix: pages' rectangles, rotations, fonts and images are
 told as the file has them

Rectangles given by other corners came out with negative sizes, rotations
outside 0 to 270 as they stood; fonts and images sharing a name were listed
once; directory entries never told forms and counted bytes as characters.
---
 content/extract/directory.go | 22 +++++++++++++++++++---
 content/extract/extract.go   | 17 +++++++++--------
 content/extract/pages.go     | 10 +++++++---
 content/extract/resources.go |  2 +-
 4 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/content/extract/directory.go b/content/extract/directory.go
index b35130a..f8d6d17 100644
--- a/content/extract/directory.go
+++ b/content/extract/directory.go
@@ -5,7 +5,10 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/syntax"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -214,7 +217,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 
 		// Count text characters
 		for _, text := range page.Text {
-			totalTextChars += len(text.Text)
+			totalTextChars += utf8.RuneCountInString(text.Text)
 		}
 		if len(page.Text) > 0 {
 			hasText = true
@@ -226,6 +229,8 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 	// Determine if this is a scanned PDF (images but no text)
 	isScannedPDF := hasImages && !hasText && len(doc.Pages) > 0
 
+	hasForms := documentHasForms(pdfBytes, password)
+
 	// Build summary
 	extractedContent.Summary = ContentSummary{
 		PageCount:     len(doc.Pages),
@@ -233,7 +238,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		ImageCount:    len(allImages),
 		HasText:       hasText,
 		HasImages:     hasImages,
-		HasForms:      false, // TODO: Detect forms
+		HasForms:      hasForms,
 		HasBookmarks:  len(doc.Bookmarks) > 0,
 		IsScannedPDF:  isScannedPDF,
 	}
@@ -256,7 +261,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		ImageFiles:    imageFiles,
 		HasText:       hasText,
 		HasImages:     hasImages,
-		HasForms:      false,
+		HasForms:      hasForms,
 		IsScannedPDF:  isScannedPDF,
 		PageCount:     len(doc.Pages),
 		TextCharCount: totalTextChars,
@@ -266,6 +271,17 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 	return output, nil
 }
 
+// documentHasForms tells whether a document has form fields or an XFA form.
+func documentHasForms(pdfBytes []byte, password []byte) bool {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password})
+	if err != nil || pdf.Trailer() == nil {
+		return false
+	}
+	acroForm := lookup(pdf, resolve(pdf, []byte(pdf.Trailer().RootRef)), "AcroForm")
+	fields, _ := syntax.Array(lookup(pdf, acroForm, "Fields"))
+	return len(fields) > 0 || lookup(pdf, acroForm, "XFA") != nil
+}
+
 // ExtractToDirectoryFromFile extracts a PDF file to a directory
 func ExtractToDirectoryFromFile(pdfPath string, password []byte, outputDir string, verbose bool) (*DirectoryOutput, error) {
 	pdfBytes, err := os.ReadFile(pdfPath)
diff --git a/content/extract/extract.go b/content/extract/extract.go
index 989108f..5ca48e2 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -73,23 +73,24 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 	doc.Annotations = allAnnotations
 
 	// Extract images and fonts (collect unique ones from all pages, each page's
-	// in order of their names)
+	// in order of their names). Pages may use one name for different resources.
 	imageSeen := make(map[string]bool)
-	fontSeen := make(map[string]bool)
+	fontSeen := make(map[types.FontInfo]bool)
 	for _, page := range doc.Pages {
 		if page.Resources == nil {
 			continue
 		}
 		for _, id := range sortedKeys(page.Resources.Images) {
-			if !imageSeen[id] {
-				imageSeen[id] = true
-				doc.Images = append(doc.Images, page.Resources.Images[id])
+			image := page.Resources.Images[id]
+			if key := fmt.Sprintf("%s %dx%d", image.ID, image.Width, image.Height); !imageSeen[key] {
+				imageSeen[key] = true
+				doc.Images = append(doc.Images, image)
 			}
 		}
 		for _, id := range sortedKeys(page.Resources.Fonts) {
-			if !fontSeen[id] {
-				fontSeen[id] = true
-				doc.Fonts = append(doc.Fonts, page.Resources.Fonts[id])
+			if font := page.Resources.Fonts[id]; !fontSeen[font] {
+				fontSeen[font] = true
+				doc.Fonts = append(doc.Fonts, font)
 			}
 		}
 	}
diff --git a/content/extract/pages.go b/content/extract/pages.go
index b7d058d..7fb6ae2 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -126,7 +126,7 @@ func extractPage(pdf *parse.PDF, node pageNode, verbose bool) types.Page {
 	page.TrimBox = rectangle(pdf, syntax.Get(node.dict, "TrimBox"))
 	page.ArtBox = rectangle(pdf, syntax.Get(node.dict, "ArtBox"))
 	if rotation, ok := number(pdf, node.attribute(pdf, "Rotate")); ok {
-		page.Rotation = int(rotation)
+		page.Rotation = (int(rotation)%360 + 360) % 360
 	}
 
 	// Extract resources
@@ -171,11 +171,15 @@ func pageContent(pdf *parse.PDF, node pageNode, verbose bool) []byte {
 	return bytes.Join(parts, []byte("\n"))
 }
 
-// rectangle reads a rectangle, following references, or returns nil.
+// rectangle reads a rectangle, given by any two diagonally opposite corners,
+// following references, or returns nil.
 func rectangle(pdf *parse.PDF, value []byte) *types.Rectangle {
 	box := numbers(pdf, value)
 	if len(box) < 4 {
 		return nil
 	}
-	return &types.Rectangle{LowerX: box[0], LowerY: box[1], UpperX: box[2], UpperY: box[3]}
+	return &types.Rectangle{
+		LowerX: min(box[0], box[2]), LowerY: min(box[1], box[3]),
+		UpperX: max(box[0], box[2]), UpperY: max(box[1], box[3]),
+	}
 }
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 33908b1..7cbfe84 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -107,7 +107,7 @@ func extractFontInfo(font []byte, pdf *parse.PDF) *types.FontInfo {
 	}
 	descriptor := lookup(pdf, described, "FontDescriptor")
 	for _, key := range []string{"FontFile", "FontFile2", "FontFile3"} {
-		if syntax.Get(descriptor, key) != nil {
+		if lookup(pdf, descriptor, key) != nil {
 			fontInfo.Embedded = true
 		}
 	}
-- 
2.43.0


From d2af0379ca31c27ee92e58f4ec3eb68c9a2d243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:39 +0000
Subject: [PATCH 26/28] fix: a byte-perfect document tells its file identifier

---
 core/parse/document_parser.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index ea238e8..4ac9df6 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"regexp"
 	"strconv"
+
+	"github.com/benedoc-inc/pdfer/core/syntax"
 )
 
 // ParsePDFDocument parses a complete PDF preserving all raw bytes for reconstruction
@@ -397,6 +399,7 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 		if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
 			trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
 		}
+		trailer.ID = fileID(trailer.RawBytes)
 
 		return trailer, nil
 	}
@@ -435,10 +438,23 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 	if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
 		trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
 	}
+	trailer.ID = fileID(dictAt(trailer.RawBytes, 0))
 
 	return trailer, nil
 }
 
+// fileID returns the byte strings of the /ID array of a trailer dictionary
+func fileID(dict []byte) [][]byte {
+	elements, _ := syntax.Array(syntax.Get(dict, "ID"))
+	var id [][]byte
+	for _, element := range elements {
+		if s, ok := syntax.String(element); ok {
+			id = append(id, s)
+		}
+	}
+	return id
+}
+
 // ParseRawObject parses a PDF object preserving all raw bytes
 func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDFRawObject, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
-- 
2.43.0


From eae0490ef27df937eb22476cdea6edcc2883fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:39 +0000
Subject: [PATCH 27/28] fix: the caption of an XFA field is not its default
 value

---
 core/parse/xfa_parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/parse/xfa_parser.go b/core/parse/xfa_parser.go
index 3f25766..b6e0a12 100644
--- a/core/parse/xfa_parser.go
+++ b/core/parse/xfa_parser.go
@@ -39,6 +39,7 @@ func ParseXFAFields(xfaXML string, verbose bool) ([]types.FormField, error) {
 	var inValue bool
 	var inName bool
 	var inLabel bool
+	var inCaption bool // the value of a caption is not the value of its field
 
 	for {
 		token, err := decoder.Token()
@@ -84,7 +85,9 @@ func ParseXFAFields(xfaXML string, verbose bool) ([]types.FormField, error) {
 						currentField.Properties[attr.Name.Local] = attr.Value
 					}
 				}
-			} else if se.Name.Local == "value" && inField {
+			} else if se.Name.Local == "caption" && inField {
+				inCaption = true
+			} else if se.Name.Local == "value" && inField && !inCaption {
 				inValue = true
 				currentValue = ""
 			} else if se.Name.Local == "name" && inField {
@@ -122,19 +125,22 @@ func ParseXFAFields(xfaXML string, verbose bool) ([]types.FormField, error) {
 					}
 
 					// Set required flag
-					required := currentRequired == "1" || strings.ToLower(currentRequired) == "true" || strings.ToLower(currentRequired) == "required"
+					required := currentRequired == "1" || strings.ToLower(currentRequired) == "true" || strings.ToLower(currentRequired) == "yes" || strings.ToLower(currentRequired) == "required"
 					currentField.Required = required
 
 					fields = append(fields, *currentField)
 					fieldIndex++
 				}
 				inField = false
+				inCaption = false
 				currentField = nil
 				currentName = ""
 				currentValue = ""
 				currentRequired = ""
 				currentLabel = ""
-			} else if se.Name.Local == "value" {
+			} else if se.Name.Local == "caption" {
+				inCaption = false
+			} else if se.Name.Local == "value" && inValue {
 				inValue = false
 				if currentField != nil && currentValue != "" {
 					currentField.DefaultValue = strings.TrimSpace(currentValue)
-- 
2.43.0


From 88446a603ef9fb6e2f1d01e226c47f36760d25ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:39 +0000
Subject: [PATCH 28/28] fix: XFA forms and settings are read and written whole

---
 forms/xfa/xfa_config_translator.go     | 171 +++++++-
 forms/xfa/xfa_connection_translator.go | 130 +-----
 forms/xfa/xfa_form_translator.go       | 571 ++++++++++++++-----------
 forms/xfa/xfa_locale_translator.go     |  13 +-
 forms/xfa/xfa_stylesheet_translator.go | 102 +++--
 forms/xfa/xfa_utils.go                 |  54 +++
 6 files changed, 606 insertions(+), 435 deletions(-)

diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index 955022a..08fe69f 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -21,8 +22,7 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 		Properties: make(map[string]interface{}),
 	}
 
-	decoder := xml.NewDecoder(strings.NewReader(xfaConfigXML))
-	decoder.Strict = false
+	decoder := newXMLDecoder(xfaConfigXML)
 
 	var currentSection string
 	var currentValue strings.Builder
@@ -42,6 +42,7 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 		switch se := token.(type) {
 		case xml.StartElement:
 			localName := se.Name.Local
+			currentValue.Reset()
 
 			switch localName {
 			case "config":
@@ -57,6 +58,7 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Validate == nil {
 					config.Validate = &types.XFAConfigValidate{}
 				}
+				parseValidateAttributes(se, config.Validate)
 			case "submit":
 				currentSection = "submit"
 				if config.Submit == nil {
@@ -82,21 +84,30 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Common == nil {
 					config.Common = &types.XFAConfigCommon{}
 				}
+				parseCommonAttributes(se, config.Common)
 			case "output":
 				currentSection = "output"
 				if config.Output == nil {
 					config.Output = &types.XFAConfigOutput{}
 				}
+				parseOutputAttributes(se, config.Output)
 			case "script":
 				if currentSection == "present" {
 					if config.Present.Script == nil {
 						config.Present.Script = &types.XFAConfigScript{}
 					}
+					parseScriptAttributes(se, config.Present.Script)
 				} else {
 					if config.Script == nil {
 						config.Script = &types.XFAConfigScript{}
 					}
+					parseScriptAttributes(se, config.Script)
 				}
+			case "trace":
+				if config.Trace == nil {
+					config.Trace = &types.XFAConfigTrace{}
+				}
+				parseTraceAttributes(se, config.Trace)
 			case "pdf":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.PDF == nil {
@@ -109,12 +120,14 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					if config.Present.XDP == nil {
 						config.Present.XDP = &types.XFAConfigXDP{}
 					}
+					parseXDPAttributes(se, config.Present.XDP)
 				}
 			case "print":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.Print == nil {
 						config.Present.Print = &types.XFAConfigPrint{}
 					}
+					parsePrintAttributes(se, config.Present.Print)
 				}
 			case "interactive":
 				if currentSection == "present" && config.Present != nil {
@@ -123,9 +136,6 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					}
 					parseInteractiveAttributes(se, config.Present.Interactive)
 				}
-			default:
-				// Store as property
-				currentValue.Reset()
 			}
 
 		case xml.EndElement:
@@ -134,9 +144,10 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 			switch localName {
 			case "present", "validate", "submit", "destination", "acrobat", "common", "output":
 				currentSection = ""
+				currentValue.Reset()
 			default:
 				value := strings.TrimSpace(currentValue.String())
-				if value != "" && currentSection != "" {
+				if value != "" && localName != "config" {
 					// Store property
 					if config.Properties == nil {
 						config.Properties = make(map[string]interface{})
@@ -169,6 +180,82 @@ func parsePresentAttributes(se xml.StartElement, present *types.XFAConfigPresent
 	}
 }
 
+func parseXDPAttributes(se xml.StartElement, xdp *types.XFAConfigXDP) {
+	for _, attr := range se.Attr {
+		if attr.Name.Local == "version" {
+			xdp.Version = attr.Value
+		}
+	}
+}
+
+func parsePrintAttributes(se xml.StartElement, print *types.XFAConfigPrint) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "printerName":
+			print.PrinterName = attr.Value
+		case "printerCap":
+			print.PrinterCap = attr.Value
+		}
+	}
+}
+
+func parseScriptAttributes(se xml.StartElement, script *types.XFAConfigScript) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "contentType":
+			script.ContentType = attr.Value
+		case "runAt":
+			script.RunAt = attr.Value
+		}
+	}
+}
+
+func parseTraceAttributes(se xml.StartElement, trace *types.XFAConfigTrace) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "enabled":
+			trace.Enabled = parseBool(attr.Value)
+		case "level":
+			trace.Level = attr.Value
+		}
+	}
+}
+
+func parseValidateAttributes(se xml.StartElement, validate *types.XFAConfigValidate) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "scriptTest":
+			validate.ScriptTest = attr.Value
+		case "nullTest":
+			validate.NullTest = attr.Value
+		case "formatTest":
+			validate.FormatTest = attr.Value
+		}
+	}
+}
+
+func parseCommonAttributes(se xml.StartElement, common *types.XFAConfigCommon) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "dataPrefix":
+			common.DataPrefix = attr.Value
+		case "timeStamp":
+			common.TimeStamp = attr.Value
+		}
+	}
+}
+
+func parseOutputAttributes(se xml.StartElement, output *types.XFAConfigOutput) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "format":
+			output.Format = attr.Value
+		case "destination":
+			output.Destination = attr.Value
+		}
+	}
+}
+
 func parseSubmitAttributes(se xml.StartElement, submit *types.XFAConfigSubmit) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
@@ -185,6 +272,9 @@ func parseSubmitAttributes(se xml.StartElement, submit *types.XFAConfigSubmit) {
 		case "textEncoding":
 			submit.TextEncoding = attr.Value
 		default:
+			if attr.Name.Local == "xmlns" || attr.Name.Space == "xmlns" {
+				continue
+			}
 			if submit.Properties == nil {
 				submit.Properties = make(map[string]string)
 			}
@@ -322,22 +412,29 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 		}
 	}
 
-	// Encode additional properties
-	if config.Properties != nil {
-		for key, value := range config.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return "", err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return "", err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return "", err
-			}
+	// Encode script section
+	if config.Script != nil {
+		if err := encodeConfigScript(enc, config.Script); err != nil {
+			return "", fmt.Errorf("failed to encode script: %v", err)
 		}
 	}
 
+	// Encode trace section
+	if config.Trace != nil {
+		attrs := []xml.Attr{}
+		if config.Trace.Enabled {
+			attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "enabled"}, Value: "1"})
+		}
+		if err := encodeEmpty(enc, "trace", textAttr(attrs, "level", config.Trace.Level)); err != nil {
+			return "", fmt.Errorf("failed to encode trace: %v", err)
+		}
+	}
+
+	// Encode additional properties
+	if err := encodeProperties(enc, config.Properties); err != nil {
+		return "", fmt.Errorf("failed to encode properties: %v", err)
+	}
+
 	// End config element
 	if err := enc.EncodeToken(configStart.End()); err != nil {
 		return "", fmt.Errorf("failed to encode config end: %v", err)
@@ -376,12 +473,31 @@ func encodeConfigPresent(enc *xml.Encoder, present *types.XFAConfigPresent) erro
 		}
 	}
 
+	if present.XDP != nil {
+		if err := encodeEmpty(enc, "xdp", textAttr(nil, "version", present.XDP.Version)); err != nil {
+			return err
+		}
+	}
+
+	if present.Print != nil {
+		attrs := textAttr(nil, "printerName", present.Print.PrinterName)
+		if err := encodeEmpty(enc, "print", textAttr(attrs, "printerCap", present.Print.PrinterCap)); err != nil {
+			return err
+		}
+	}
+
 	if present.Interactive != nil {
 		if err := encodeConfigInteractive(enc, present.Interactive); err != nil {
 			return err
 		}
 	}
 
+	if present.Script != nil {
+		if err := encodeConfigScript(enc, present.Script); err != nil {
+			return err
+		}
+	}
+
 	if err := enc.EncodeToken(presentStart.End()); err != nil {
 		return err
 	}
@@ -389,6 +505,11 @@ func encodeConfigPresent(enc *xml.Encoder, present *types.XFAConfigPresent) erro
 	return nil
 }
 
+func encodeConfigScript(enc *xml.Encoder, script *types.XFAConfigScript) error {
+	attrs := textAttr(nil, "contentType", script.ContentType)
+	return encodeEmpty(enc, "script", textAttr(attrs, "runAt", script.RunAt))
+}
+
 func encodeConfigPDF(enc *xml.Encoder, pdf *types.XFAConfigPDF) error {
 	pdfStart := xml.StartElement{Name: xml.Name{Local: "pdf"}}
 	attrs := []xml.Attr{}
@@ -428,7 +549,7 @@ func encodeConfigPDF(enc *xml.Encoder, pdf *types.XFAConfigPDF) error {
 func encodeConfigInteractive(enc *xml.Encoder, interactive *types.XFAConfigInteractive) error {
 	interactiveStart := xml.StartElement{Name: xml.Name{Local: "interactive"}}
 	attrs := []xml.Attr{}
-	if interactive.CurrentPage > 0 {
+	if interactive.CurrentPage != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "currentPage"}, Value: strconv.Itoa(interactive.CurrentPage)})
 	}
 	if interactive.Zoom != "" {
@@ -494,6 +615,14 @@ func encodeConfigSubmit(enc *xml.Encoder, submit *types.XFAConfigSubmit) error {
 	if submit.TextEncoding != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "textEncoding"}, Value: submit.TextEncoding})
 	}
+	names := make([]string, 0, len(submit.Properties))
+	for name := range submit.Properties {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: name}, Value: submit.Properties[name]})
+	}
 	submitStart.Attr = attrs
 
 	if err := enc.EncodeToken(submitStart); err != nil {
@@ -533,7 +662,7 @@ func encodeConfigAcrobat(enc *xml.Encoder, acrobat *types.XFAConfigAcrobat) erro
 	if acrobat.AutoSave {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSave"}, Value: "1"})
 	}
-	if acrobat.AutoSaveTime > 0 {
+	if acrobat.AutoSaveTime != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSaveTime"}, Value: strconv.Itoa(acrobat.AutoSaveTime)})
 	}
 	if acrobat.FormType != "" {
diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index 4d2bea0..d9d411a 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -20,8 +20,7 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 		Connections: make([]types.XFAConnection, 0),
 	}
 
-	decoder := xml.NewDecoder(strings.NewReader(xfaConnectionSetXML))
-	decoder.Strict = false
+	decoder := newXMLDecoder(xfaConnectionSetXML)
 
 	var currentConnection *types.XFAConnection
 	var currentValue strings.Builder
@@ -42,6 +41,7 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 		switch se := token.(type) {
 		case xml.StartElement:
 			localName := se.Name.Local
+			currentValue.Reset()
 
 			switch localName {
 			case "connectionSet":
@@ -77,42 +77,6 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 						}
 					}
 				}
-			case "uri", "url":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "wsdl":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "operation":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "soapAction":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "user":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "password":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "dsn":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "query":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			default:
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
 			}
 
 		case xml.EndElement:
@@ -129,62 +93,7 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 				currentConnection = nil
 			case "dataDescription":
 				inDataDescription = false
-			case "uri", "url":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["uri"] = value
-					}
-				}
-			case "wsdl":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["wsdl"] = value
-					}
-				}
-			case "operation":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["operation"] = value
-					}
-				}
-			case "soapAction":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["soapAction"] = value
-					}
-				}
-			case "user":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["user"] = value
-					}
-				}
-			case "password":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["password"] = value
-					}
-				}
-			case "dsn":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["dsn"] = value
-					}
-				}
-			case "query":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["query"] = value
-					}
-				}
+				currentValue.Reset()
 			default:
 				if inDataDescription && currentConnection != nil && currentConnection.DataDescription != nil {
 					value := strings.TrimSpace(currentValue.String())
@@ -192,6 +101,9 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 						currentConnection.DataDescription.Properties[localName] = value
 					}
 				} else if currentConnection != nil {
+					if localName == "url" {
+						localName = "uri"
+					}
 					value := strings.TrimSpace(currentValue.String())
 					if value != "" {
 						currentConnection.Properties[localName] = value
@@ -275,19 +187,8 @@ func encodeConnection(enc *xml.Encoder, connection types.XFAConnection) error {
 	}
 
 	// Encode properties
-	if connection.Properties != nil {
-		for key, value := range connection.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return err
-			}
-		}
+	if err := encodeProperties(enc, connection.Properties); err != nil {
+		return err
 	}
 
 	if err := enc.EncodeToken(connectionStart.End()); err != nil {
@@ -316,19 +217,8 @@ func encodeDataDescription(enc *xml.Encoder, desc *types.XFADataDescription) err
 	}
 
 	// Encode properties
-	if desc.Properties != nil {
-		for key, value := range desc.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return err
-			}
-		}
+	if err := encodeProperties(enc, desc.Properties); err != nil {
+		return err
 	}
 
 	if err := enc.EncodeToken(descStart.End()); err != nil {
diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 10499b5..e2984bb 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -89,19 +89,32 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 			Value: formSchema.Metadata.Title,
 		})
 	}
+	templateStart.Attr = textAttr(templateStart.Attr, "description", formSchema.Metadata.Description)
+	templateStart.Attr = textAttr(templateStart.Attr, "version", formSchema.Metadata.Version)
 	if err := enc.EncodeToken(templateStart); err != nil {
 		return "", fmt.Errorf("failed to encode template start: %v", err)
 	}
 
+	// Rules belong to the field they come from
+	rules := make([][]types.Rule, len(formSchema.Questions))
+	var others []types.Rule
+	for _, rule := range formSchema.Rules {
+		if i := questionOf(formSchema.Questions, rule.Source); i >= 0 {
+			rules[i] = append(rules[i], rule)
+		} else {
+			others = append(others, rule)
+		}
+	}
+
 	// Convert questions to fields
-	for _, question := range formSchema.Questions {
-		if err := encodeQuestionAsField(enc, question); err != nil {
+	for i, question := range formSchema.Questions {
+		if err := encodeQuestionAsField(enc, question, rules[i]); err != nil {
 			return "", fmt.Errorf("failed to encode question %s: %v", question.ID, err)
 		}
 	}
 
-	// Convert rules to events/scripts
-	for _, rule := range formSchema.Rules {
+	// Convert other rules to events/scripts
+	for _, rule := range others {
 		if err := encodeRuleAsEvent(enc, rule); err != nil {
 			if verbose {
 				log.Printf("Warning: Failed to encode rule %s: %v", rule.ID, err)
@@ -126,8 +139,22 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 	return result, nil
 }
 
-// encodeQuestionAsField encodes a Question as an XFA field element
-func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
+// questionOf returns the question of a name, or else of an ID, or -1
+func questionOf(questions []types.Question, source string) int {
+	found := -1
+	for i, question := range questions {
+		if source != "" && question.Name == source {
+			return i
+		}
+		if source != "" && question.ID == source && found < 0 {
+			found = i
+		}
+	}
+	return found
+}
+
+// encodeQuestionAsField encodes a Question and its rules as an XFA field element
+func encodeQuestionAsField(enc *xml.Encoder, question types.Question, rules []types.Rule) error {
 	fieldStart := xml.StartElement{
 		Name: xml.Name{Local: "field"},
 		Attr: []xml.Attr{
@@ -155,6 +182,12 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 	}
 
 	// Add access attribute
+	if question.ReadOnly && question.Hidden {
+		fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
+			Name:  xml.Name{Local: "presence"},
+			Value: "hidden",
+		})
+	}
 	if question.ReadOnly {
 		fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
 			Name:  xml.Name{Local: "access"},
@@ -168,22 +201,24 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 	}
 
 	// Add layout properties
-	if question.Properties != nil {
-		for key, val := range question.Properties {
-			if key == "x" || key == "y" || key == "w" || key == "h" {
-				fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
-					Name:  xml.Name{Local: key},
-					Value: fmt.Sprintf("%v", val),
-				})
-			}
-		}
-		if pageNum, ok := question.Properties["page_number"].(int); ok && pageNum > 0 {
+	for _, key := range []string{"x", "y", "w", "h"} {
+		if val, ok := question.Properties[key]; ok {
 			fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
-				Name:  xml.Name{Local: "page"},
-				Value: strconv.Itoa(pageNum),
+				Name:  xml.Name{Local: key},
+				Value: propertyText(val),
 			})
 		}
 	}
+	pageNum := question.PageNumber
+	if n, ok := question.Properties["page_number"].(int); ok && pageNum <= 0 {
+		pageNum = n
+	}
+	if pageNum > 0 {
+		fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
+			Name:  xml.Name{Local: "page"},
+			Value: strconv.Itoa(pageNum),
+		})
+	}
 
 	if err := enc.EncodeToken(fieldStart); err != nil {
 		return err
@@ -223,7 +258,7 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 		if err := enc.EncodeToken(valueStart); err != nil {
 			return err
 		}
-		valueStr := fmt.Sprintf("%v", question.Default)
+		valueStr := propertyText(question.Default)
 		if err := enc.EncodeToken(xml.CharData(valueStr)); err != nil {
 			return err
 		}
@@ -234,25 +269,25 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 
 	// Add options for choice types
 	if len(question.Options) > 0 {
-		itemsStart := xml.StartElement{Name: xml.Name{Local: "items"}}
-		if err := enc.EncodeToken(itemsStart); err != nil {
-			return err
-		}
+		var labels, values []string
+		differ := false
 		for _, opt := range question.Options {
-			textStart := xml.StartElement{Name: xml.Name{Local: "text"}}
-			if err := enc.EncodeToken(textStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(opt.Value)); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(textStart.End()); err != nil {
-				return err
+			label := opt.Label
+			if label == "" {
+				label = opt.Value
 			}
+			labels = append(labels, label)
+			values = append(values, opt.Value)
+			differ = differ || label != opt.Value
 		}
-		if err := enc.EncodeToken(itemsStart.End()); err != nil {
+		if err := encodeItems(enc, nil, labels); err != nil {
 			return err
 		}
+		if differ {
+			if err := encodeItems(enc, textAttr(nil, "save", "1"), values); err != nil {
+				return err
+			}
+		}
 	}
 
 	// Add validation
@@ -262,6 +297,13 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 		}
 	}
 
+	// Add rules
+	for _, rule := range rules {
+		if err := encodeRuleAsEvent(enc, rule); err != nil {
+			return err
+		}
+	}
+
 	// End field
 	if err := enc.EncodeToken(fieldStart.End()); err != nil {
 		return err
@@ -270,6 +312,20 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 	return nil
 }
 
+// encodeItems encodes the texts to choose from, or the values they stand for
+func encodeItems(enc *xml.Encoder, attrs []xml.Attr, texts []string) error {
+	itemsStart := xml.StartElement{Name: xml.Name{Local: "items"}, Attr: attrs}
+	if err := enc.EncodeToken(itemsStart); err != nil {
+		return err
+	}
+	for _, text := range texts {
+		if err := encodeTextElement(enc, "text", text); err != nil {
+			return err
+		}
+	}
+	return enc.EncodeToken(itemsStart.End())
+}
+
 // encodeValidation encodes validation rules as XFA validation elements
 func encodeValidation(enc *xml.Encoder, validation *types.ValidationRules) error {
 	validateStart := xml.StartElement{Name: xml.Name{Local: "validate"}}
@@ -293,6 +349,18 @@ func encodeValidation(enc *xml.Encoder, validation *types.ValidationRules) error
 			Value: validation.ErrorMessage,
 		})
 	}
+	if validation.MinLength != nil {
+		attrs = textAttr(attrs, "minLength", strconv.Itoa(*validation.MinLength))
+	}
+	if validation.MaxLength != nil {
+		attrs = textAttr(attrs, "maxLength", strconv.Itoa(*validation.MaxLength))
+	}
+	if validation.MinValue != nil {
+		attrs = textAttr(attrs, "minValue", propertyText(*validation.MinValue))
+	}
+	if validation.MaxValue != nil {
+		attrs = textAttr(attrs, "maxValue", propertyText(*validation.MaxValue))
+	}
 
 	validateStart.Attr = attrs
 	if err := enc.EncodeToken(validateStart); err != nil {
@@ -474,21 +542,16 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 		Subforms: make([]XFASubformData, 0),
 	}
 
-	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
-	decoder.Strict = false // Allow malformed XML
+	decoder := newXMLDecoder(xfaXML)
 
 	var currentField *XFAFieldData
-	var currentSubform *XFASubformData
-	var currentValue strings.Builder
-	var currentLabel strings.Builder
-	var currentDescription strings.Builder
-	var inField bool
-	var inSubform bool
-	var inValue bool
-	var inLabel bool
-	var inDescription bool
-	var inItems bool // For choice options
-	var fieldIndex int
+	var subforms []*XFASubformData // those that are open
+	var path []string              // of open elements inside the field
+	var text strings.Builder
+	var textDepth int           // of the element whose text is collected
+	var labels, values []string // of options
+	var saved bool              // items hold values
+	var widget string
 
 	for {
 		token, err := decoder.Token()
@@ -507,230 +570,167 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 		case xml.StartElement:
 			localName := se.Name.Local
 
-			// Handle top-level elements
-			switch localName {
-			case "template":
-				// Extract title/description from template attributes or children
-				for _, attr := range se.Attr {
-					switch attr.Name.Local {
-					case "title":
-						structure.Title = attr.Value
+			if currentField == nil {
+				switch localName {
+				case "template":
+					for _, attr := range se.Attr {
+						switch attr.Name.Local {
+						case "title":
+							structure.Title = attr.Value
+						case "description":
+							structure.Description = attr.Value
+						case "version":
+							structure.Version = attr.Value
+						}
 					}
+				case "subform":
+					subform := &XFASubformData{
+						Fields: make([]XFAFieldData, 0),
+					}
+					for _, attr := range se.Attr {
+						if attr.Name.Local == "name" {
+							subform.Name = attr.Value
+						}
+					}
+					subforms = append(subforms, subform)
+				case "field":
+					currentField = newXFAField(se)
+					path, labels, values, widget, textDepth = nil, nil, nil, "", 0
 				}
-			case "subform":
-				inSubform = true
-				currentSubform = &XFASubformData{
-					Fields: make([]XFAFieldData, 0),
-				}
+				continue
+			}
+
+			path = append(path, localName)
+			if textDepth > 0 {
+				continue // part of the text
+			}
+			if len(path) > 2 {
+				continue // deeper than anything that is read
+			}
+			switch strings.Join(path, "/") {
+			case "label", "caption/value", "desc", "description", "value", "validate/pattern", "validate/script", "event/script", "calculate/script":
+				textDepth = len(path)
+				text.Reset()
+			case "items":
+				saved = false
 				for _, attr := range se.Attr {
-					if attr.Name.Local == "name" {
-						currentSubform.Name = attr.Value
+					if attr.Name.Local == "save" {
+						saved = parseBool(attr.Value)
 					}
 				}
-			case "field":
-				inField = true
-				fieldIndex++
-				currentField = &XFAFieldData{
-					Properties: make(map[string]interface{}),
-					Options:    make([]XFAOption, 0),
-					Events:     make([]XFAEvent, 0),
-					PageNumber: 1, // Default
-				}
-
-				// Extract field attributes
+			case "event":
+				event := XFAEvent{}
 				for _, attr := range se.Attr {
 					switch attr.Name.Local {
+					case "activity":
+						event.Type = attr.Value
 					case "name":
-						currentField.Name = attr.Value
-						currentField.FullName = attr.Value
-					case "type":
-						currentField.Type = attr.Value
-					case "required":
-						currentField.Required = parseBool(attr.Value)
-					case "access":
-						if attr.Value == "readOnly" {
-							currentField.ReadOnly = true
-						} else if attr.Value == "hidden" {
-							currentField.Hidden = true
-						}
-					case "h", "w", "x", "y":
-						// Store layout properties
-						if val, err := parseFloat(attr.Value); err == nil {
-							currentField.Properties[attr.Name.Local] = val
-						} else {
-							currentField.Properties[attr.Name.Local] = attr.Value
-						}
-					case "page":
-						if pageNum, err := strconv.Atoi(attr.Value); err == nil {
-							currentField.PageNumber = pageNum
-						}
+						event.Action = attr.Value
 					}
 				}
-			case "value":
-				if inField {
-					inValue = true
-					currentValue.Reset()
+				currentField.Events = append(currentField.Events, event)
+			case "validate":
+				if currentField.Validation == nil {
+					currentField.Validation = &XFAValidation{}
 				}
-			case "label":
-				if inField {
-					inLabel = true
-					currentLabel.Reset()
+				parseXFAValidation(se, currentField.Validation)
+			case "bind":
+				for _, attr := range se.Attr {
+					switch attr.Name.Local {
+					case "match":
+						// Can indicate required, etc.
+						if attr.Value == "none" {
+							currentField.Required = false
+						}
+					}
 				}
-			case "desc", "description":
-				if inField {
-					inDescription = true
-					currentDescription.Reset()
+			default:
+				if len(path) == 2 && path[0] == "items" {
+					textDepth = len(path)
+					text.Reset()
 				}
-			case "items":
-				if inField {
-					inItems = true
+				if len(path) == 2 && path[0] == "ui" {
+					widget = widgetType(se)
 				}
-			case "text":
-				// Option text in items
-				if inItems && inField {
-					currentValue.Reset()
+			}
+
+		case xml.EndElement:
+			if currentField == nil {
+				if se.Name.Local == "subform" && len(subforms) > 0 {
+					last := len(subforms) - 1
+					structure.Subforms = append(structure.Subforms, *subforms[last])
+					subforms = subforms[:last]
 				}
-			case "event":
-				if inField {
-					event := XFAEvent{}
-					for _, attr := range se.Attr {
-						switch attr.Name.Local {
-						case "activity":
-							event.Type = attr.Value
-						case "name":
-							event.Action = attr.Value
-						}
-					}
-					currentField.Events = append(currentField.Events, event)
+				continue
+			}
+
+			if len(path) == 0 {
+				// Finalize field
+				if currentField.Type == "" {
+					currentField.Type = widget
 				}
-			case "script":
-				if inField && len(currentField.Events) > 0 {
-					// Script content will be in CharData
-					currentValue.Reset()
+				if len(labels) == 0 {
+					labels = values
 				}
-			case "validate":
-				if inField {
-					if currentField.Validation == nil {
-						currentField.Validation = &XFAValidation{}
+				for i, label := range labels {
+					option := XFAOption{Value: label, Label: label}
+					if i < len(values) {
+						option.Value = values[i]
 					}
-					for _, attr := range se.Attr {
-						switch attr.Name.Local {
-						case "scriptTest":
-							currentField.Validation.Script = attr.Value
-						case "messageText":
-							currentField.Validation.ErrorMessage = attr.Value
-						}
-					}
-				}
-			case "pattern":
-				if inField && currentField.Validation != nil {
-					currentValue.Reset()
+					currentField.Options = append(currentField.Options, option)
 				}
-			case "bind":
-				if inField {
-					for _, attr := range se.Attr {
-						switch attr.Name.Local {
-						case "match":
-							// Can indicate required, etc.
-							if attr.Value == "none" {
-								currentField.Required = false
-							}
-						}
-					}
+				if len(subforms) > 0 {
+					last := subforms[len(subforms)-1]
+					last.Fields = append(last.Fields, *currentField)
 				}
+				structure.Fields = append(structure.Fields, *currentField)
+				currentField = nil
+				continue
 			}
 
-		case xml.EndElement:
-			localName := se.Name.Local
-
-			switch localName {
-			case "field":
-				if currentField != nil {
-					// Finalize field
-					if currentValue.Len() > 0 {
-						currentField.Value = strings.TrimSpace(currentValue.String())
+			if textDepth == len(path) {
+				value := strings.TrimSpace(text.String())
+				textDepth = 0
+				switch strings.Join(path, "/") {
+				case "label":
+					currentField.Label = value
+				case "caption/value":
+					if currentField.Label == "" {
+						currentField.Label = value
+					}
+				case "desc", "description":
+					currentField.Description = value
+				case "value":
+					if value != "" {
+						currentField.Value = value
 						if currentField.Default == "" {
-							currentField.Default = currentField.Value
+							currentField.Default = value
 						}
 					}
-					if currentLabel.Len() > 0 {
-						currentField.Label = strings.TrimSpace(currentLabel.String())
-					}
-					if currentDescription.Len() > 0 {
-						currentField.Description = strings.TrimSpace(currentDescription.String())
+				case "validate/pattern":
+					currentField.Validation.Pattern = value
+				case "validate/script":
+					currentField.Validation.Script = value
+				case "event/script":
+					// Add script to last event
+					currentField.Events[len(currentField.Events)-1].Script = value
+				case "calculate/script":
+					if value != "" {
+						currentField.Events = append(currentField.Events, XFAEvent{Type: "calculate", Script: value})
 					}
-
-					if inSubform && currentSubform != nil {
-						currentSubform.Fields = append(currentSubform.Fields, *currentField)
+				default:
+					if saved {
+						values = append(values, value)
 					} else {
-						structure.Fields = append(structure.Fields, *currentField)
+						labels = append(labels, value)
 					}
 				}
-				inField = false
-				currentField = nil
-				currentValue.Reset()
-				currentLabel.Reset()
-				currentDescription.Reset()
-			case "subform":
-				if currentSubform != nil {
-					structure.Subforms = append(structure.Subforms, *currentSubform)
-					// Also add subform fields to top-level fields
-					structure.Fields = append(structure.Fields, currentSubform.Fields...)
-				}
-				inSubform = false
-				currentSubform = nil
-			case "value":
-				if inField && currentField != nil {
-					val := strings.TrimSpace(currentValue.String())
-					if val != "" {
-						currentField.Value = val
-						if currentField.Default == "" {
-							currentField.Default = val
-						}
-					}
-				}
-				inValue = false
-			case "label":
-				if inField && currentField != nil {
-					currentField.Label = strings.TrimSpace(currentLabel.String())
-				}
-				inLabel = false
-			case "desc", "description":
-				if inField && currentField != nil {
-					currentField.Description = strings.TrimSpace(currentDescription.String())
-				}
-				inDescription = false
-			case "items":
-				inItems = false
-			case "text":
-				if inItems && inField && currentField != nil {
-					// This is an option value
-					option := XFAOption{
-						Value: strings.TrimSpace(currentValue.String()),
-						Label: strings.TrimSpace(currentValue.String()),
-					}
-					currentField.Options = append(currentField.Options, option)
-				}
-			case "script":
-				if inField && len(currentField.Events) > 0 {
-					// Add script to last event
-					lastEvent := &currentField.Events[len(currentField.Events)-1]
-					lastEvent.Script = strings.TrimSpace(currentValue.String())
-				}
-			case "pattern":
-				if inField && currentField.Validation != nil {
-					currentField.Validation.Pattern = strings.TrimSpace(currentValue.String())
-				}
 			}
+			path = path[:len(path)-1]
 
 		case xml.CharData:
-			data := string(se)
-			if inValue && inField {
-				currentValue.WriteString(data)
-			} else if inLabel && inField {
-				currentLabel.WriteString(data)
-			} else if inDescription && inField {
-				currentDescription.WriteString(data)
+			if textDepth > 0 {
+				text.Write(se)
 			}
 		}
 	}
@@ -738,6 +738,97 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 	return structure, nil
 }
 
+// newXFAField returns a field with what its attributes say
+func newXFAField(se xml.StartElement) *XFAFieldData {
+	field := &XFAFieldData{
+		Properties: make(map[string]interface{}),
+		Options:    make([]XFAOption, 0),
+		Events:     make([]XFAEvent, 0),
+		PageNumber: 1, // Default
+	}
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "name":
+			field.Name = attr.Value
+			field.FullName = attr.Value
+		case "type":
+			field.Type = attr.Value
+		case "required":
+			field.Required = parseBool(attr.Value)
+		case "access":
+			if attr.Value == "readOnly" {
+				field.ReadOnly = true
+			} else if attr.Value == "hidden" {
+				field.Hidden = true
+			}
+		case "presence":
+			if attr.Value == "hidden" || attr.Value == "invisible" {
+				field.Hidden = true
+			}
+		case "h", "w", "x", "y":
+			// Store layout properties
+			if val, err := parseFloat(attr.Value); err == nil {
+				field.Properties[attr.Name.Local] = val
+			} else {
+				field.Properties[attr.Name.Local] = attr.Value
+			}
+		case "page":
+			if pageNum, err := strconv.Atoi(attr.Value); err == nil {
+				field.PageNumber = pageNum
+			}
+		}
+	}
+	return field
+}
+
+// parseXFAValidation takes what the attributes of a validate element say
+func parseXFAValidation(se xml.StartElement, validation *XFAValidation) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "scriptTest":
+			validation.Script = attr.Value
+		case "messageText":
+			validation.ErrorMessage = attr.Value
+		case "minLength":
+			if val, err := strconv.Atoi(attr.Value); err == nil {
+				validation.MinLength = &val
+			}
+		case "maxLength":
+			if val, err := strconv.Atoi(attr.Value); err == nil {
+				validation.MaxLength = &val
+			}
+		case "minValue":
+			if val, err := parseFloat(attr.Value); err == nil {
+				validation.MinValue = &val
+			}
+		case "maxValue":
+			if val, err := parseFloat(attr.Value); err == nil {
+				validation.MaxValue = &val
+			}
+		}
+	}
+}
+
+// widgetType returns the type of a field from the widget of its user interface
+func widgetType(se xml.StartElement) string {
+	switch se.Name.Local {
+	case "textEdit":
+		for _, attr := range se.Attr {
+			if attr.Name.Local == "multiLine" && parseBool(attr.Value) {
+				return "textEdit"
+			}
+		}
+		return "text"
+	case "numericEdit":
+		return "numeric"
+	case "dateTimeEdit":
+		return "date"
+	case "choiceList", "checkButton", "button", "signature":
+		return se.Name.Local
+	}
+	return ""
+}
+
 // convertXFAFieldToQuestion converts an XFAFieldData to a Question
 func convertXFAFieldToQuestion(field XFAFieldData, index int, verbose bool) types.Question {
 	question := types.Question{
@@ -799,7 +890,7 @@ func mapXFATypeToResponseTypeEnum(xfaType string) types.ResponseType {
 		return types.ResponseTypeRadio
 	case "checkbox", "checkbutton":
 		return types.ResponseTypeCheckbox
-	case "select", "choice", "dropdown", "listbox":
+	case "select", "choice", "choicelist", "dropdown", "listbox":
 		return types.ResponseTypeSelect
 	case "numeric", "decimal", "integer", "float":
 		return types.ResponseTypeNumber
@@ -884,7 +975,7 @@ func parseBool(s string) bool {
 }
 
 func parseFloat(s string) (float64, error) {
-	return strconv.ParseFloat(strings.TrimSpace(s), 64)
+	return parseNumber(strings.TrimSpace(s))
 }
 
 func sanitizeFieldIDWithIndex(name string, index int) string {
diff --git a/forms/xfa/xfa_locale_translator.go b/forms/xfa/xfa_locale_translator.go
index d90a3f7..4c2a762 100644
--- a/forms/xfa/xfa_locale_translator.go
+++ b/forms/xfa/xfa_locale_translator.go
@@ -21,8 +21,7 @@ func ParseXFALocaleSet(xfaLocaleSetXML string, verbose bool) (*types.XFALocaleSe
 		Locales: make([]types.XFALocale, 0),
 	}
 
-	decoder := xml.NewDecoder(strings.NewReader(xfaLocaleSetXML))
-	decoder.Strict = false
+	decoder := newXMLDecoder(xfaLocaleSetXML)
 
 	var currentLocale *types.XFALocale
 	var currentSection string
@@ -145,11 +144,7 @@ func ParseXFALocaleSet(xfaLocaleSetXML string, verbose bool) (*types.XFALocaleSe
 			}
 
 		case xml.CharData:
-			if currentSection == "calendar" && strings.Contains(string(se), "holiday") {
-				// Holiday content
-			} else {
-				currentValue.WriteString(string(se))
-			}
+			currentValue.WriteString(string(se))
 		}
 	}
 
@@ -392,7 +387,7 @@ func encodeCurrency(enc *xml.Encoder, currency *types.XFACurrency) error {
 	if currency.Name != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "name"}, Value: currency.Name})
 	}
-	if currency.Precision > 0 {
+	if currency.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(currency.Precision)})
 	}
 	currencyStart.Attr = attrs
@@ -464,7 +459,7 @@ func encodeNumberPattern(enc *xml.Encoder, pattern *types.XFANumberPattern) erro
 	if pattern.Decimal != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "decimal"}, Value: pattern.Decimal})
 	}
-	if pattern.Precision > 0 {
+	if pattern.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(pattern.Precision)})
 	}
 	patternStart.Attr = attrs
diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index fcc2517..7fd8faf 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -21,8 +21,7 @@ func ParseXFAStylesheet(xfaStylesheetXML string, verbose bool) (*types.XFAStyles
 		Styles: make([]types.XFAStyle, 0),
 	}
 
-	decoder := xml.NewDecoder(strings.NewReader(xfaStylesheetXML))
-	decoder.Strict = false
+	decoder := newXMLDecoder(xfaStylesheetXML)
 
 	var currentStyle *types.XFAStyle
 	var currentProperty string
@@ -102,7 +101,8 @@ func ParseXFAStylesheet(xfaStylesheetXML string, verbose bool) (*types.XFAStyles
 					parseSizeAttributes(se, currentStyle.Properties["size"].(*types.XFASize))
 				}
 			default:
-				if currentStyle != nil {
+				// What stands inside a font, say, is no property of the style
+				if currentStyle != nil && !isStyleElement(currentProperty) {
 					currentProperty = localName
 					currentValue.Reset()
 				}
@@ -124,7 +124,7 @@ func ParseXFAStylesheet(xfaStylesheetXML string, verbose bool) (*types.XFAStyles
 			case "font", "border", "margin", "padding", "position", "size":
 				currentProperty = ""
 			default:
-				if currentStyle != nil && currentProperty != "" {
+				if currentStyle != nil && currentProperty == localName {
 					value := strings.TrimSpace(currentValue.String())
 					if value != "" {
 						parsedValue := parseStyleValue(value)
@@ -148,6 +148,15 @@ func ParseXFAStylesheet(xfaStylesheetXML string, verbose bool) (*types.XFAStyles
 	return stylesheet, nil
 }
 
+// isStyleElement tells if a style has a structure for elements of a name
+func isStyleElement(name string) bool {
+	switch name {
+	case "font", "border", "margin", "padding", "position", "size":
+		return true
+	}
+	return false
+}
+
 func parseFontAttributes(se xml.StartElement, style *types.XFAStyle) {
 	font := &types.XFAStyleFont{}
 	for _, attr := range se.Attr {
@@ -155,7 +164,7 @@ func parseFontAttributes(se xml.StartElement, style *types.XFAStyle) {
 		case "family":
 			font.Family = attr.Value
 		case "size":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				font.Size = val
 			}
 		case "weight":
@@ -176,7 +185,7 @@ func parseBorderAttributes(se xml.StartElement, style *types.XFAStyle) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "width":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				border.Width = val
 			}
 		case "style":
@@ -184,7 +193,7 @@ func parseBorderAttributes(se xml.StartElement, style *types.XFAStyle) {
 		case "color":
 			border.Color = attr.Value
 		case "radius":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				border.Radius = val
 			}
 		}
@@ -196,19 +205,19 @@ func parseMarginAttributes(se xml.StartElement, margin *types.XFAMargin) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "top":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				margin.Top = val
 			}
 		case "right":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				margin.Right = val
 			}
 		case "bottom":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				margin.Bottom = val
 			}
 		case "left":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				margin.Left = val
 			}
 		}
@@ -219,19 +228,19 @@ func parsePaddingAttributes(se xml.StartElement, padding *types.XFAPadding) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "top":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				padding.Top = val
 			}
 		case "right":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				padding.Right = val
 			}
 		case "bottom":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				padding.Bottom = val
 			}
 		case "left":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				padding.Left = val
 			}
 		}
@@ -242,11 +251,11 @@ func parsePositionAttributes(se xml.StartElement, position *types.XFAPosition) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "x":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				position.X = val
 			}
 		case "y":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				position.Y = val
 			}
 		}
@@ -257,20 +266,28 @@ func parseSizeAttributes(se xml.StartElement, size *types.XFASize) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
 		case "width":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				size.Width = val
 			}
 		case "height":
-			if val, err := strconv.ParseFloat(attr.Value, 64); err == nil {
+			if val, err := parseNumber(attr.Value); err == nil {
 				size.Height = val
 			}
 		}
 	}
 }
 
+// parseNumber reads a decimal number
+func parseNumber(value string) (float64, error) {
+	if value == "" || strings.Trim(value, "+-.0123456789eE") != "" {
+		return 0, fmt.Errorf("not a number: %q", value)
+	}
+	return strconv.ParseFloat(value, 64)
+}
+
 func parseStyleValue(value string) interface{} {
 	// Try to parse as number
-	if floatVal, err := strconv.ParseFloat(value, 64); err == nil {
+	if floatVal, err := parseNumber(value); err == nil {
 		return floatVal
 	}
 	// Try boolean
@@ -382,20 +399,15 @@ func encodeStyle(enc *xml.Encoder, style types.XFAStyle) error {
 	}
 
 	// Encode other properties
+	others := make(map[string]interface{})
 	for key, value := range style.Properties {
 		if key != "font" && key != "border" && key != "margin" && key != "padding" && key != "position" && key != "size" {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return err
-			}
+			others[key] = value
 		}
 	}
+	if err := encodeProperties(enc, others); err != nil {
+		return err
+	}
 
 	if err := enc.EncodeToken(styleStart.End()); err != nil {
 		return err
@@ -410,7 +422,7 @@ func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 	if font.Family != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "family"}, Value: font.Family})
 	}
-	if font.Size > 0 {
+	if font.Size != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "size"}, Value: strconv.FormatFloat(font.Size, 'f', -1, 64)})
 	}
 	if font.Weight != "" {
@@ -440,7 +452,7 @@ func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	borderStart := xml.StartElement{Name: xml.Name{Local: "border"}}
 	attrs := []xml.Attr{}
-	if border.Width > 0 {
+	if border.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(border.Width, 'f', -1, 64)})
 	}
 	if border.Style != "" {
@@ -449,7 +461,7 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	if border.Color != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "color"}, Value: border.Color})
 	}
-	if border.Radius > 0 {
+	if border.Radius != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "radius"}, Value: strconv.FormatFloat(border.Radius, 'f', -1, 64)})
 	}
 	borderStart.Attr = attrs
@@ -467,16 +479,16 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 	marginStart := xml.StartElement{Name: xml.Name{Local: "margin"}}
 	attrs := []xml.Attr{}
-	if margin.Top > 0 {
+	if margin.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(margin.Top, 'f', -1, 64)})
 	}
-	if margin.Right > 0 {
+	if margin.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(margin.Right, 'f', -1, 64)})
 	}
-	if margin.Bottom > 0 {
+	if margin.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(margin.Bottom, 'f', -1, 64)})
 	}
-	if margin.Left > 0 {
+	if margin.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(margin.Left, 'f', -1, 64)})
 	}
 	marginStart.Attr = attrs
@@ -494,16 +506,16 @@ func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 	paddingStart := xml.StartElement{Name: xml.Name{Local: "padding"}}
 	attrs := []xml.Attr{}
-	if padding.Top > 0 {
+	if padding.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(padding.Top, 'f', -1, 64)})
 	}
-	if padding.Right > 0 {
+	if padding.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(padding.Right, 'f', -1, 64)})
 	}
-	if padding.Bottom > 0 {
+	if padding.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(padding.Bottom, 'f', -1, 64)})
 	}
-	if padding.Left > 0 {
+	if padding.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(padding.Left, 'f', -1, 64)})
 	}
 	paddingStart.Attr = attrs
@@ -521,10 +533,10 @@ func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 	positionStart := xml.StartElement{Name: xml.Name{Local: "position"}}
 	attrs := []xml.Attr{}
-	if position.X > 0 {
+	if position.X != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "x"}, Value: strconv.FormatFloat(position.X, 'f', -1, 64)})
 	}
-	if position.Y > 0 {
+	if position.Y != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "y"}, Value: strconv.FormatFloat(position.Y, 'f', -1, 64)})
 	}
 	positionStart.Attr = attrs
@@ -542,10 +554,10 @@ func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 func encodeSize(enc *xml.Encoder, size *types.XFASize) error {
 	sizeStart := xml.StartElement{Name: xml.Name{Local: "size"}}
 	attrs := []xml.Attr{}
-	if size.Width > 0 {
+	if size.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(size.Width, 'f', -1, 64)})
 	}
-	if size.Height > 0 {
+	if size.Height != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "height"}, Value: strconv.FormatFloat(size.Height, 'f', -1, 64)})
 	}
 	sizeStart.Attr = attrs
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 6b22b05..ea13f79 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -4,9 +4,11 @@ import (
 	"bytes"
 	"compress/flate"
 	"compress/zlib"
+	"encoding/xml"
 	"fmt"
 	"io"
 	"log"
+	"sort"
 	"strconv"
 
 	"github.com/benedoc-inc/pdfer/core/syntax"
@@ -82,3 +84,55 @@ func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, ver
 	}
 	return pdf.Update(map[int][]byte{streamObjNum: body})
 }
+
+// textAttr adds an attribute, unless it is empty
+func textAttr(attrs []xml.Attr, name, value string) []xml.Attr {
+	if value == "" {
+		return attrs
+	}
+	return append(attrs, xml.Attr{Name: xml.Name{Local: name}, Value: value})
+}
+
+// encodeEmpty encodes an element that has only attributes
+func encodeEmpty(enc *xml.Encoder, name string, attrs []xml.Attr) error {
+	start := xml.StartElement{Name: xml.Name{Local: name}, Attr: attrs}
+	if err := enc.EncodeToken(start); err != nil {
+		return err
+	}
+	return enc.EncodeToken(start.End())
+}
+
+// encodeTextElement encodes an element that has only text
+func encodeTextElement(enc *xml.Encoder, name, text string) error {
+	start := xml.StartElement{Name: xml.Name{Local: name}}
+	if err := enc.EncodeToken(start); err != nil {
+		return err
+	}
+	if err := enc.EncodeToken(xml.CharData(text)); err != nil {
+		return err
+	}
+	return enc.EncodeToken(start.End())
+}
+
+// encodeProperties encodes properties as elements, in the order of their names
+func encodeProperties(enc *xml.Encoder, properties map[string]interface{}) error {
+	names := make([]string, 0, len(properties))
+	for name := range properties {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		if err := encodeTextElement(enc, name, propertyText(properties[name])); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// propertyText returns the text of a property's value
+func propertyText(value interface{}) string {
+	if number, ok := value.(float64); ok {
+		return strconv.FormatFloat(number, 'f', -1, 64)
+	}
+	return fmt.Sprintf("%v", value)
+}
-- 
2.43.0

