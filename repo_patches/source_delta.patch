From 3631d68fc806cb0070c28aba36bf3c7f0c8766f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:26 +0000
Subject: [PATCH 01/44] fix: ring block buffer overwrote the oldest block when
 exactly full after wrapping

---
 collections/buffer_rb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index b605fe4..595573f 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -23,6 +23,7 @@ func (r *RBBlockBuffer) Write(data []byte) {
 
 func (r *RBBlockBuffer) Alloc(size int) []byte {
 	head, tail := 0, 0
+	full := false
 	var oldBlock *struct {
 		index     int
 		size      int
@@ -42,6 +43,8 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock = r.blocks.Tail()
 		head = r.blocks.Head().index
 		tail = oldBlock.index + oldBlock.size
+		// 回环后头尾相接, 没有空闲内存
+		full = tail == head
 	}
 
 	// 分配新的内存块
@@ -59,7 +62,7 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		r.blocks.Push(oldBlock)
 	}
 
-	over := tail < head
+	over := tail < head || full
 	if over && head-tail >= size {
 		// 已经回环, 并且头部有大小合适的内存空间
 	} else if !over && r.capacity-tail >= size {
-- 
2.43.0


From a23b1c66e48d5956613b7a9314e1aa5472147fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:26 +0000
Subject: [PATCH 02/44] fix: ring block buffer forgot blocks dropped by an
 earlier growth

---
 collections/buffer_rb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 595573f..099b989 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -85,10 +85,13 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock.index = 0
 		tail = oldBlock.size
 
-		r.discardBlockCount = bufio.MaxInt(r.blocks.Size()-1, 0)
-		for i := 0; i < r.discardBlockCount; i++ {
+		discardCount := bufio.MaxInt(r.blocks.Size()-1, 0)
+		for i := 0; i < discardCount; i++ {
 			r.blocks.Pop()
 		}
+
+		// 之前扩容丢弃的内存块可能还没有全部释放
+		r.discardBlockCount += discardCount
 	}
 
 	bytes := r.data[tail : tail+size]
-- 
2.43.0


From 570cc886489bc29300b645654e93a9ba8bbd542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:27 +0000
Subject: [PATCH 03/44] fix: ring block buffer panicked popping back a block
 dropped by growth

---
 collections/buffer_rb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 099b989..d54d7ba 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -115,6 +115,18 @@ func (r *RBBlockBuffer) Pop() {
 	}
 }
 
+func (r *RBBlockBuffer) PopBack() {
+	utils.Assert(!r.sealed)
+
+	// 最新的内存块已经在扩容时丢弃
+	if r.blocks.IsEmpty() && r.discardBlockCount > 0 {
+		r.discardBlockCount--
+		return
+	}
+
+	r.DirectBlockBuffer.PopBack()
+}
+
 func (r *RBBlockBuffer) Clear() {
 	r.DirectBlockBuffer.Clear()
 	r.capacity = cap(r.data)
-- 
2.43.0


From 30ad5489b7b1a9091d643b3c82a7448874fc22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:27 +0000
Subject: [PATCH 04/44] fix: demuxer mixed packets of tracks when a later track
 delivered first

---
 demuxer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index e08f94f..85515b1 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -252,15 +252,12 @@ func (s *BaseDemuxer) OnVideoPacket(bufferIndex int, id utils.AVCodecID, data []
 // 回调AVPacket, 如果没有完成探测, 则保存到Packets中, 否则回调处理
 // 保证回调的顺序是OnNewTrack...->OnTrackComplete->OnPacket...
 func (s *BaseDemuxer) processBufferedPacket(packet *AVPacket) {
-	var packets *collections.LinkedList[*AVPacket]
-	exist := packet.Index < len(s.Packets)
-	if exist {
-		packets = s.Packets[packet.Index]
-	} else {
+	// 第一个packet可能不属于第一个track
+	for packet.Index >= len(s.Packets) {
 		s.Packets = append(s.Packets, &collections.LinkedList[*AVPacket]{})
-		packets = s.Packets[len(s.Packets)-1]
 	}
 
+	packets := s.Packets[packet.Index]
 	packets.Add(packet)
 
 	prevPacketIndex := packets.Size() - 2
-- 
2.43.0


From e0c70ff24fd04cd9b8be1626137a8071d440a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:27 +0000
Subject: [PATCH 05/44] fix: demuxer reordered buffered packets with equal dts

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 85515b1..0da5aa1 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -463,7 +463,7 @@ func (s *BaseDemuxer) OnProbeComplete() {
 	}
 
 	// dts升序排序
-	sort.Slice(result, func(i, j int) bool {
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Dts < result[j].Dts
 	})
 
-- 
2.43.0


From e3aab1b45f7c156cf05b3cece5f73ad08510feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:27 +0000
Subject: [PATCH 06/44] fix: conditional probe completion ignored raw audio
 tracks without packets

---
 demuxer.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index 0da5aa1..8977f46 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -493,14 +493,9 @@ func (s *BaseDemuxer) TryCompleteProbe() {
 			continue
 		}
 
-		for i, packets := range s.Packets {
-			if i == track.GetStream().Index && packets.Size() < 2 {
-				needMoreData = true
-				break
-			}
-		}
-
-		if needMoreData {
+		index := track.GetStream().Index
+		if index >= len(s.Packets) || s.Packets[index].Size() < 2 {
+			needMoreData = true
 			break
 		}
 	}
-- 
2.43.0


From 57bbbbf5ff15ac4c02227b7f92b34b8347577770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 07/44] fix: demuxer took the sample size for the sample rate
 of high-rate PCM

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 8977f46..cef9530 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -358,7 +358,7 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 			continue
 		}
 
-		var sampleRate = track.GetStream().SampleSize
+		var sampleRate = track.GetStream().SampleRate
 		msSize := pktDataSize / pktDuration
 		if msSize <= 16 { // 8K
 			sampleRate = 8000
-- 
2.43.0


From cd6bb4e0de7ca57941e49187e3d115b35f18591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 08/44] fix: split-off block buffer started behind its own
 memory

---
 collections/buffer_direct.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index daea3e6..9d01835 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -129,7 +129,6 @@ func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 			size      int
 			completed bool
 		}](64),
-		nextOffset: b.nextOffset,
 	}
 }
 
-- 
2.43.0


From 66b6072a5ab7bc1cf1d5a57511abf6de81d40c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 09/44] fix: cleared block buffer wrote into memory it had
 split off

---
 collections/buffer_direct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index 9d01835..9db3038 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -122,8 +122,11 @@ func (b *DirectBlockBuffer) Size() int {
 
 func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 	b.sealed = true
+	free := b.data[b.nextOffset:]
+	// 空闲内存归新的BlockBuffer所有, Clear后也不可再使用
+	b.data = b.data[:b.nextOffset:b.nextOffset]
 	return &DirectBlockBuffer{
-		data: b.data[b.nextOffset:],
+		data: free,
 		blocks: NewQueue[*struct {
 			index     int
 			size      int
-- 
2.43.0


From 425b4b52181205024981e3a0dad62351fc94be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 10/44] fix: hevc record lost SPS units and took PPS units for
 them

---
 hevc/mp4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index aabdb5a..fca11c2 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -189,7 +189,7 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 			if HevcNalVPS == HEVCNALUnitType(headerType) {
 				r.VPSList = append(r.VPSList, nalu)
 			} else if HevcNalSPS == HEVCNALUnitType(headerType) {
-				r.SPSList = append(r.PPSList, nalu)
+				r.SPSList = append(r.SPSList, nalu)
 			} else if HevcNalPPS == HEVCNALUnitType(headerType) {
 				r.PPSList = append(r.PPSList, nalu)
 			}
-- 
2.43.0


From d4cd10d2904535041f52004e209223ae9ebb9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:29 +0000
Subject: [PATCH 11/44] fix: GetSampleRateIndex looked the rate up as an index

---
 utils/aac_util.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 3b5b258..0e3fcd6 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -181,7 +181,13 @@ func GetSampleRateFromFrequency(index int) (int, bool) {
 }
 
 func GetSampleRateIndex(rate int) int {
-	return audioSamplingRates[rate]
+	for index, sampleRate := range audioSamplingRates {
+		if sampleRate == rate && sampleRate > 0 {
+			return index
+		}
+	}
+
+	return -1
 }
 
 func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
-- 
2.43.0


From c515913edf083387751c86d1ece164dccd82b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:29 +0000
Subject: [PATCH 12/44] fix: negative signed Exp-Golomb codes decoded wrongly

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 6d8d003..8c08d94 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -83,7 +83,7 @@ func (self *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 804ef52269efc34032e05257b5765ad2eff7fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:21 +0000
Subject: [PATCH 13/44] fix: H.264 SPS parsed with its emulation prevention
 bytes

---
 avc/sps.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/avc/sps.go b/avc/sps.go
index 3249ab1..5696b9b 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -28,6 +28,8 @@ type SPS struct {
 
 func ParseSPS(data []byte) (s SPS, err error) {
 	data = RemoveStartCode(data)
+	// 去掉防竞争字节
+	data = bytes.Replace(data, []byte{0x0, 0x0, 0x3}, []byte{0x0, 0x0}, -1)
 	r := &bufio.GolombBitReader{R: bytes.NewReader(data)}
 
 	if _, err = r.ReadBits(8); err != nil {
-- 
2.43.0


From c1af0c8129d11f2cf847290ef77d9322a99fb36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:21 +0000
Subject: [PATCH 14/44] fix: H.264 cropping ignored chroma format and field
 coding

---
 avc/sps.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/avc/sps.go b/avc/sps.go
index 5696b9b..56a5d4d 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -56,12 +56,12 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		return
 	}
 
+	chroma_format_idc := uint(1)
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
 		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
 
-		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
 		}
@@ -216,8 +216,17 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 	}
 
-	s.Width = int((s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2)
-	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2)
+	// 裁剪单位取决于色度格式和帧场编码
+	cropUnitX, cropUnitY := uint(1), 2-frame_mbs_only_flag
+	if chroma_format_idc == 1 || chroma_format_idc == 2 {
+		cropUnitX = 2
+	}
+	if chroma_format_idc == 1 {
+		cropUnitY *= 2
+	}
+
+	s.Width = int((s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropUnitX)
+	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropUnitY)
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From ccf8ab9e45f901b03ec1cc12a4ac3793b3ec5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:22 +0000
Subject: [PATCH 15/44] fix: H.264 4:4:4 SPS has twelve scaling lists

---
 avc/sps.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index 56a5d4d..c3f87ae 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -92,7 +92,12 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			scalingListCount := 8
+			if chroma_format_idc == 3 {
+				scalingListCount = 12
+			}
+
+			for i := 0; i < scalingListCount; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From dfb5acb76eda7cba1db0bd6188bebc343b5fdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:22 +0000
Subject: [PATCH 16/44] fix: H.264 SPS of multiview and depth profiles
 misparsed

---
 avc/sps.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index c3f87ae..e7078d9 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -60,7 +60,10 @@ func ParseSPS(data []byte) (s SPS, err error) {
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
-- 
2.43.0


From 34e69ddf5f727e663e3155e30967dd41cdcf1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:22 +0000
Subject: [PATCH 17/44] fix: H.265 picture size ignored the conformance window

---
 hevc/sps.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/hevc/sps.go b/hevc/sps.go
index c25c1b1..cef68d6 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -82,18 +82,25 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 		return
 	}
 	if conformanceWindowFlag != 0 {
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
-		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+		// left/right/top/bottom
+		var offsets [4]uint
+		for i := range offsets {
+			if offsets[i], err = br.ReadExponentialGolombCode(); err != nil {
+				return
+			}
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+
+		// 裁剪单位取决于色度格式
+		subWidthC, subHeightC := uint(1), uint(1)
+		if ctx.chromaFormat == 1 || ctx.chromaFormat == 2 {
+			subWidthC = 2
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+		if ctx.chromaFormat == 1 {
+			subHeightC = 2
 		}
+
+		ctx.Width -= int((offsets[0] + offsets[1]) * subWidthC)
+		ctx.Height -= int((offsets[2] + offsets[3]) * subHeightC)
 	}
 
 	var bdlm8 uint
-- 
2.43.0


From 0294c70ee0d1ca9ee5f125d450c1f852818b919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:23 +0000
Subject: [PATCH 18/44] fix: decoder configuration records over 1 KiB could not
 be built or converted

---
 avc/mp4.go  | 12 ++++++++++--
 hevc/mp4.go | 13 +++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index e99b2bc..294eddc 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -47,7 +47,14 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		return nil, fmt.Errorf("pps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	size := 7
+	for _, list := range [][][]byte{spsList, ppsList} {
+		for _, nalu := range list {
+			size += 2 + len(nalu)
+		}
+	}
+
+	bytes := make([]byte, size)
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(5); err != nil {
 		return nil, err
@@ -176,7 +183,8 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	// 每个sps/pps的2字节长度换成4字节start code
+	bytes := make([]byte, len(data)+2*(len(record.SPSList)+len(record.PPSList)))
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.SPSList {
diff --git a/hevc/mp4.go b/hevc/mp4.go
index fca11c2..b8e19c4 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -83,7 +83,15 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 		return nil, fmt.Errorf("vps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	size := 23
+	for _, list := range [][][]byte{vpsList, spsList, ppsList} {
+		size += 3
+		for _, nalu := range list {
+			size += 2 + len(nalu)
+		}
+	}
+
+	bytes := make([]byte, size)
 	bytes[0] = 1
 	bytes[21] = 3
 	bytes[22] = 3
@@ -214,7 +222,8 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	// 每个vps/sps/pps的2字节长度换成4字节start code
+	bytes := make([]byte, len(data)+2*(len(record.VPSList)+len(record.SPSList)+len(record.PPSList)))
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.VPSList {
-- 
2.43.0


From c2a29983f269837b78bd3496b39082bf10502b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:33 +0000
Subject: [PATCH 19/44] fix: RemoveStartCode panicked on data shorter than a
 start code

---
 avc/util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index c7898f1..ee856f4 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -312,11 +312,12 @@ func SplitNalU(data []byte, cb func(nalu []byte)) {
 }
 
 func RemoveStartCode(data []byte) []byte {
-	if data[0] != 0 || data[1] != 0 {
+	length := len(data)
+	if length < 3 || data[0] != 0 || data[1] != 0 {
 		return data
 	} else if data[2] == 0x1 {
 		return data[3:]
-	} else if data[2] == 0x0 && data[3] == 0x1 {
+	} else if length > 3 && data[2] == 0x0 && data[3] == 0x1 {
 		return data[4:]
 	}
 
-- 
2.43.0


From 59f742d65146a0da654beacfb2deaf4d51de3de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:33 +0000
Subject: [PATCH 20/44] fix: SplitNalU panicked on fewer than three bytes

---
 avc/util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index ee856f4..9ea9c9a 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -300,6 +300,13 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 
 func SplitNalU(data []byte, cb func(nalu []byte)) {
 	var offset int
+	if len(data) < 3 {
+		if len(data) > 0 {
+			cb(data)
+		}
+		return
+	}
+
 	// +3查找第二个nalu
 	for n := FindStartCode2(data[offset+3:]); n > -1; n = FindStartCode2(data[offset+3:]) {
 		n += 3
-- 
2.43.0


From 430e91516fd44587668c3f057c57e6f4e9110d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:34 +0000
Subject: [PATCH 21/44] fix: parameter set extraction panicked on a start code
 without a unit

---
 avc/util.go  | 4 ++++
 hevc/util.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 9ea9c9a..d95d2ff 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -338,6 +338,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, error) {
 
 	SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := noStartCodeNALU[0] & 0x1F
 
 		if byte(H264NalSPS) == header {
diff --git a/hevc/util.go b/hevc/util.go
index 8df5415..1297590 100644
--- a/hevc/util.go
+++ b/hevc/util.go
@@ -94,6 +94,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, []byte, error) {
 
 	avc.SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := avc.RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := HEVCNALUnitType(noStartCodeNALU[0] >> 1 & 0x3F)
 
 		if header == HevcNalVPS {
-- 
2.43.0


From a5875fe8d8deae28403dd2feb0c50b1586dcd115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:34 +0000
Subject: [PATCH 22/44] fix: ParseNalUnits never returned or panicked

---
 avc/util.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index d95d2ff..d8d7fa0 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -88,15 +88,13 @@ func IsKeyFrame(p []byte) bool {
 }
 
 func ParseNalUnits(p []byte) int {
-	for {
-		index, _ := FindStartCode(p)
-		state := p[index]
-		switch state & 0x1F {
-		case H264NalSlice:
-		case H264NalIDRSlice:
-			break
-		}
+	count := 0
+	for index, _ := FindStartCode(p); index > -1; index, _ = FindStartCode(p) {
+		count++
+		p = p[index:]
 	}
+
+	return count
 }
 
 func copyNalUWithBytes(dst []byte, data []byte, outSize int, append bool) int {
-- 
2.43.0


From 24587640ee0c500861b95405ea02e852e8d7559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:34 +0000
Subject: [PATCH 23/44] fix: M4VCExtraDataToAnnexB overran truncated records
 and dropped PPS units behind several SPS units

---
 avc/util.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index d8d7fa0..6bc8397 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -268,10 +268,14 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 
 	readUint8 &= 0x3 + 1
 	unitNb, err := reader.ReadUint8()
+	if err != nil {
+		return nil, err
+	}
 	unitNb &= 0x1f
 
-	spsDone := 0
-	writer := bufio.NewBytesWriter(make([]byte, len(src)+256))
+	spsDone := false
+	// 每个sps/pps的2字节长度换成4字节start code
+	writer := bufio.NewBytesWriter(make([]byte, len(src)*2))
 	for unitNb != 0 {
 		unitNb--
 
@@ -281,15 +285,22 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 			return nil, err
 		} else if err = writer.Write(StartCode4); err != nil {
 			return nil, err
-		} else if err = writer.Write(src[reader.Offset() : reader.Offset()+int(size)]); err != nil {
+		}
+
+		var unit []byte
+		unit, err = reader.ReadBytes(int(size))
+		if err != nil {
 			return nil, err
-		} else if err = reader.Seek(int(size)); err != nil {
+		} else if err = writer.Write(unit); err != nil {
 			return nil, err
 		}
 
-		spsDone++
-		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == 1 {
-			unitNb, _ = reader.ReadUint8()
+		// 最后一个sps后面是pps
+		if unitNb == 0 && !spsDone {
+			spsDone = true
+			if reader.ReadableBytes() > 2 {
+				unitNb, _ = reader.ReadUint8()
+			}
 		}
 	}
 
-- 
2.43.0


From 7a90a8f19633b576efc250628c1c0491d681d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:34 +0000
Subject: [PATCH 24/44] fix: extra data was repeated in front of every slice of
 an IDR picture

---
 avc/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 6bc8397..e2430e7 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -163,6 +163,7 @@ func AVCC2AnnexB(dst []byte, avcc []byte, extra []byte) int {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen && len(extra) > 0 {
 				outSize += copyNalUWithBytes(dst[outSize:], extra, outSize, false)
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		case H264NalSEI:
@@ -240,6 +241,7 @@ func Mp4ToAnnexB(writer bufio.BytesWriter, data, extra []byte) {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen {
 				outSize += copyNalU(writer, extra, outSize, false)
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		}
-- 
2.43.0


From f3fcf3b593e53868ed7fc984dee91d58f6bde915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:35 +0000
Subject: [PATCH 25/44] fix: ADTS and AudioSpecificConfig parsing panicked on
 short data

---
 utils/aac_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 0e3fcd6..902ca5f 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -223,6 +223,10 @@ func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
 }
 
 func ReadADtsFixedHeader(data []byte) (ADtsHeader, error) {
+	if len(data) < 7 {
+		return 0, fmt.Errorf("need more data")
+	}
+
 	if 0xFFF != binary.BigEndian.Uint16(data)>>4 {
 		return 0, fmt.Errorf("not find syncword")
 	}
@@ -251,6 +255,10 @@ func ADtsHeader2MpegAudioConfigData(header ADtsHeader) ([]byte, error) {
 }
 
 func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("need more data")
+	}
+
 	//audio specific config
 	config := &MPEG4AudioConfig{}
 	config.ObjectType = int(data[0] >> 3)
-- 
2.43.0


From ce8d36eba916402ee920ed714a21e32d838cfb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:35 +0000
Subject: [PATCH 26/44] fix: demuxer panicked on an AAC announcement without
 extra data

---
 demuxer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index cef9530..b56bebc 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -105,7 +105,6 @@ func (s *BaseDemuxer) createAudioTrack(bufferIndex int, id utils.AVCodecID, time
 	}
 
 	if utils.AVCodecIdAAC == id && !config.HasADTSHeader {
-		utils.Assert(extraData != nil)
 		mpeg4AudioConfig, err := utils.ParseMpeg4AudioConfig(extraData)
 		if err != nil {
 			println(err.Error())
-- 
2.43.0


From f01037c595da85644d9f6704aaced6522d2974af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:35 +0000
Subject: [PATCH 27/44] fix: building a decoder configuration record panicked
 on short parameter sets

---
 avc/mp4.go  | 4 ++++
 hevc/mp4.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index 294eddc..a94c9cc 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -67,6 +67,10 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 	var noStartCodeSps []byte
 	for _, sps := range spsList {
 		noStartCodeSps = RemoveStartCode(sps)
+		if len(noStartCodeSps) < 4 {
+			return nil, fmt.Errorf("invalid sps")
+		}
+
 		if err := writer.WriteUint16(uint16(len(noStartCodeSps))); err != nil {
 			return nil, err
 		}
diff --git a/hevc/mp4.go b/hevc/mp4.go
index b8e19c4..3b7e4dc 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -102,6 +102,10 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 	write := func(data [][]byte) error {
 		noStartCodeData := avc.RemoveStartCode(data[0])
+		if len(noStartCodeData) == 0 {
+			return fmt.Errorf("invalid parameter set")
+		}
+
 		if err := writer.WriteUint8((noStartCodeData[0] >> 1) & 0x3F); err != nil {
 			return err
 		}
-- 
2.43.0


From 6db113e5b7d7f994a39d897f41b28940a11f6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:35 +0000
Subject: [PATCH 28/44] fix: time-base conversion lost exactly representable
 values to float rounding

---
 packet_utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 310a976..ff8e1f3 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -7,8 +7,13 @@ import (
 )
 
 func ConvertTs(ts int64, srcTimeBase, dstTimeBase int) int64 {
-	interval := float64(dstTimeBase) / float64(srcTimeBase)
-	return int64(float64(ts) * interval)
+	if srcTimeBase == 0 {
+		return 0
+	}
+
+	// 整数运算, 避免浮点误差
+	src, dst := int64(srcTimeBase), int64(dstTimeBase)
+	return ts/src*dst + ts%src*dst/src
 }
 
 func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
-- 
2.43.0


From 2a8d7af7e618b2133cf680264d86c89b2c55f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:36 +0000
Subject: [PATCH 29/44] fix: Annex-B view panicked on a packet or extra data
 without a unit

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index ff8e1f3..aff4a6f 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -23,7 +23,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		// 确保annexb的关键帧开头是vps/sps/pps
 		if pkt.Key && (stream.CodecID == utils.AVCodecIdH264 || stream.CodecID == utils.AVCodecIdH265) && stream.CodecParameters != nil && pkt.dataAnnexB == nil {
 			extraData := stream.CodecParameters.AnnexBExtraData()
-			if avc.RemoveStartCode(extraData)[0] != avc.RemoveStartCode(pkt.Data)[0] {
+			extraNALU, dataNALU := avc.RemoveStartCode(extraData), avc.RemoveStartCode(pkt.Data)
+			if len(extraNALU) > 0 && len(dataNALU) > 0 && extraNALU[0] != dataNALU[0] {
 				size := len(extraData) + len(pkt.Data)
 				var data []byte
 				if pkt.OnBufferAlloc != nil {
-- 
2.43.0


From 061dab588ee042be58df88add4c090445723a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:36 +0000
Subject: [PATCH 30/44] fix: Annex-B view dereferenced missing codec parameters

---
 packet_utils.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index aff4a6f..7b2f937 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -48,10 +48,11 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		var n int
 		var bytes []byte
 
-		var extraDataSize int
+		var extraData []byte
 		if pkt.Key && stream.CodecParameters != nil {
-			extraDataSize = len(stream.CodecParameters.AnnexBExtraData())
+			extraData = stream.CodecParameters.AnnexBExtraData()
 		}
+		extraDataSize := len(extraData)
 
 		dstSize := extraDataSize + len(pkt.Data) + 256
 		if pkt.OnBufferAlloc != nil {
@@ -65,14 +66,17 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := stream.CodecParameters.(*HEVCCodecData).Record.LengthSizeMinusOne
+			lengthSize := byte(4)
+			if codecData, ok := stream.CodecParameters.(*HEVCCodecData); ok {
+				lengthSize = codecData.Record.LengthSizeMinusOne
+			}
 			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
 			if err != nil {
 				panic(err)
 			}
 		}
 
-		copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
+		copy(bytes, extraData)
 		n += extraDataSize
 		pkt.dataAnnexB = bytes[:n]
 	}
-- 
2.43.0


From 5c9a45bad31231e29b1aade5f5017ad705315d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:36 +0000
Subject: [PATCH 31/44] fix: Annex-B view panicked on malformed H.265 units

---
 packet_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index 7b2f937..fa084d7 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -72,7 +72,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 			}
 			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
 			if err != nil {
-				panic(err)
+				println(err.Error())
+				return nil
 			}
 		}
 
-- 
2.43.0


From e0df6ad800f371d6e9363640cfca49ea03939967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:36 +0000
Subject: [PATCH 32/44] fix: packet view buffers were too small for many small
 units

---
 packet_utils.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index fa084d7..a64139e 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -54,7 +54,13 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		}
 		extraDataSize := len(extraData)
 
-		dstSize := extraDataSize + len(pkt.Data) + 256
+		lengthSize := 4
+		if codecData, ok := stream.CodecParameters.(*HEVCCodecData); ok {
+			lengthSize = int(codecData.Record.LengthSizeMinusOne)
+		}
+
+		// 长度字段小于start code时, 每个nalu(至少2字节)都会变大
+		dstSize := extraDataSize + len(pkt.Data) + 256 + len(pkt.Data)/(lengthSize+2)*(4-lengthSize)
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
@@ -66,11 +72,7 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := byte(4)
-			if codecData, ok := stream.CodecParameters.(*HEVCCodecData); ok {
-				lengthSize = codecData.Record.LengthSizeMinusOne
-			}
-			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
+			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 			if err != nil {
 				println(err.Error())
 				return nil
@@ -92,7 +94,8 @@ func AnnexBPacket2AVCC(pkt *AVPacket) []byte {
 		return pkt.Data
 	} else if pkt.dataAVCC == nil {
 		var bytes []byte
-		dstSize := len(pkt.Data) + 256
+		// 3字节的start code换成4字节长度后会变大
+		dstSize := len(pkt.Data) + len(pkt.Data)/4 + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
-- 
2.43.0


From 6dd77723c47a4c8514183196348d193410fd04bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:36 +0000
Subject: [PATCH 33/44] fix: ADTS channel configuration 7 means eight channels

---
 video_stream.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/video_stream.go b/video_stream.go
index 5023ee2..224fb9f 100644
--- a/video_stream.go
+++ b/video_stream.go
@@ -86,12 +86,17 @@ func ExtractAudioExtraData(codec utils.AVCodecID, data []byte) ([]byte, int, Aud
 			return nil, -1, AudioConfig{}, err
 		}
 
+		mpeg4AudioConfig, err := utils.ParseMpeg4AudioConfig(extraData)
+		if err != nil {
+			return nil, -1, AudioConfig{}, err
+		}
+
 		rate, _ := utils.GetSampleRateFromFrequency(header.Frequency())
 
 		return extraData, skip, AudioConfig{
 			SampleRate:    rate,
 			SampleSize:    16,
-			Channels:      header.Channel(),
+			Channels:      mpeg4AudioConfig.Channels,
 			HasADTSHeader: true,
 		}, nil
 	} else if utils.AVCodecIdPCMALAW == codec || utils.AVCodecIdPCMMULAW == codec {
-- 
2.43.0


From 3ee0968656cc27446b6366dcd971b2d6d5a877b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 34/44] fix: queue capacity was reported as zero

---
 collections/ring_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/ring_buffer.go b/collections/ring_buffer.go
index ded39d1..fbe1a22 100644
--- a/collections/ring_buffer.go
+++ b/collections/ring_buffer.go
@@ -89,7 +89,7 @@ func (r *ringBuffer[T]) Size() int {
 }
 
 func (r *ringBuffer[T]) Capacity() int {
-	return r.capacity
+	return cap(r.data)
 }
 
 func (r *ringBuffer[T]) Data() ([]T, []T) {
-- 
2.43.0


From 16d5c181da598c03e3ad1d66ea71720bcd273350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 35/44] fix: streams buffer panicked when streams were first
 used out of index order

---
 streams_buffer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/streams_buffer.go b/streams_buffer.go
index 7e88f5b..327356e 100644
--- a/streams_buffer.go
+++ b/streams_buffer.go
@@ -10,12 +10,15 @@ type StreamsBuffer struct {
 }
 
 func (s *StreamsBuffer) findOrCreateStreamBuffer(index int, mediaType utils.AVMediaType) *collections.RBBlockBuffer {
-	exist := index < len(s.buffers)
-	if !exist {
+	for index >= len(s.buffers) {
+		s.buffers = append(s.buffers, nil)
+	}
+
+	if s.buffers[index] == nil {
 		if utils.AVMediaTypeVideo == mediaType {
-			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(1024*1024*2))
+			s.buffers[index] = collections.NewRBBlockBuffer(1024 * 1024 * 2)
 		} else {
-			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(48000*12))
+			s.buffers[index] = collections.NewRBBlockBuffer(48000 * 12)
 		}
 	}
 
-- 
2.43.0


From 41cf8aa145730d93c30208569819f96de24b2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:55 +0000
Subject: [PATCH 36/44] fix: Annex-B to AVCC conversion lost the first byte of
 units starting with zero

---
 avc/util.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index e2430e7..91b93b8 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -189,14 +189,6 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 	}
 
 	for nalStart < length {
-		// 跳过开头空包(连续0000000100000001)
-		for nalStart < length && annexB[nalStart] == 0 {
-			nalStart++
-		}
-		if nalStart >= length {
-			break
-		}
-
 		nalEnd, n := FindStartCode(annexB[nalStart:])
 		// 最后一个nalu
 		if nalEnd < 0 {
@@ -205,9 +197,10 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 		}
 
 		nalSize := nalEnd - n
-		// 空包, 保存前一个nalu(1个字节header)
+		// 跳过空包(连续0000000100000001)
 		if nalSize == 0 {
-			nalSize++
+			nalStart += nalEnd
+			continue
 		}
 
 		binary.BigEndian.PutUint32(dst[size:], uint32(nalSize))
-- 
2.43.0


From 42b7513a0542279be89c20597807be1e74647f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:45 +0000
Subject: [PATCH 37/44] fix: M4VCExtraDataToAnnexB accepted a record cut off
 behind its PPS count

---
 avc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avc/util.go b/avc/util.go
index 91b93b8..be0b194 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -293,7 +293,7 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 		// 最后一个sps后面是pps
 		if unitNb == 0 && !spsDone {
 			spsDone = true
-			if reader.ReadableBytes() > 2 {
+			if reader.ReadableBytes() > 0 {
 				unitNb, _ = reader.ReadUint8()
 			}
 		}
-- 
2.43.0


From 5a4dd3603a28f15e26875a2a33aeb2b010d8adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:02 +0000
Subject: [PATCH 38/44] fix: H.265 stream made from parameter sets had no unit
 length size

---
 codec_paraments.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/codec_paraments.go b/codec_paraments.go
index 1ec9df4..7ff77bf 100644
--- a/codec_paraments.go
+++ b/codec_paraments.go
@@ -185,9 +185,10 @@ func NewHEVCCodecData(vps, sps, pps []byte) (CodecData, error) {
 	}
 
 	recordInfo := hevc.HEVCDecoderConfigurationRecord{
-		VPSList: make([][]byte, 1),
-		SPSList: make([][]byte, 1),
-		PPSList: make([][]byte, 1),
+		LengthSizeMinusOne: 4, // 与Marshal和Unmarshal一致, 4字节长度
+		VPSList:            make([][]byte, 1),
+		SPSList:            make([][]byte, 1),
+		PPSList:            make([][]byte, 1),
 	}
 
 	recordInfo.VPSList[0] = vps
-- 
2.43.0


From c11d37c468130f2923f75170dddb23ad514546a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:22 +0000
Subject: [PATCH 39/44] fix: file dump kept the end of an older, longer dump

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index e374151..80f528b 100644
--- a/handler.go
+++ b/handler.go
@@ -55,7 +55,7 @@ type OnUnpackStream2FileHandler struct {
 func (o *OnUnpackStream2FileHandler) OnNewTrack(track Track) {
 	o.OnUnpackStreamLogger.OnNewTrack(track)
 	stream := track.GetStream()
-	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE, 132)
+	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 132)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From ece7a17717a239b171701ae039a3729beeb28eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 40/44] fix: fetching from a drained direct buffer panicked
 instead of returning nothing

A ring buffer that grew keeps its older fetched blocks; popping the newest
one back emptied the direct buffer and the next Fetch panicked.
---
 collections/buffer_direct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index 9db3038..6d23f13 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -68,6 +68,10 @@ func (b *DirectBlockBuffer) Alloc(size int) []byte {
 
 func (b *DirectBlockBuffer) Fetch() []byte {
 	utils.Assert(!b.sealed)
+	if b.blocks.IsEmpty() {
+		return nil
+	}
+
 	block := b.blocks.Tail()
 	if block.completed {
 		return nil
-- 
2.43.0


From 29e3bbf40ffc016ca811d818163817257ac9a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 41/44] fix: ring of empty blocks was taken for a full one and
 grew without bound

Two or more empty blocks make head and tail meet although nothing is
stored; every further write then grew the buffer by half, for ever.
---
 collections/buffer_rb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index d54d7ba..914e411 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -43,8 +43,10 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock = r.blocks.Tail()
 		head = r.blocks.Head().index
 		tail = oldBlock.index + oldBlock.size
-		// 回环后头尾相接, 没有空闲内存
-		full = tail == head
+		// 回环后头尾相接, 没有空闲内存. 如果全是空的block, 头尾也相等
+		for i := 0; tail == head && !full && i < r.blocks.Size(); i++ {
+			full = r.blocks.Peek(i).size > 0
+		}
 	}
 
 	// 分配新的内存块
-- 
2.43.0


From 1c8b70720c72445a98a6133de16d8d005f41335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:58 +0000
Subject: [PATCH 42/44] fix: reusing a decoder configuration record kept the
 parameter sets parsed before

---
 avc/mp4.go  | 3 +++
 hevc/mp4.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index a94c9cc..65b7108 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -115,6 +115,9 @@ func (a *AVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 		return err
 	}
 
+	// 重复使用时, 不保留之前解析的参数集
+	a.SPSList, a.PPSList = nil, nil
+
 	//#define MAX_SPS_COUNT          32
 	//#define MAX_PPS_COUNT         256
 	spsCount, err = reader.ReadUint8()
diff --git a/hevc/mp4.go b/hevc/mp4.go
index 3b7e4dc..0a9e561 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -170,6 +170,9 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 
 	r.NumOfArrays = data[22]
 
+	// 重复使用时, 不保留之前解析的参数集
+	r.VPSList, r.SPSList, r.PPSList = nil, nil, nil
+
 	for i := 0; i < int(r.NumOfArrays); i++ {
 		readUint, err := reader.ReadUint8()
 		if err != nil {
-- 
2.43.0


From 4132b4eb8475cfac123e76424c4f3c285cd59752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 43/44] fix: refuse parameter sets that a decoder configuration
 record cannot hold

---
 avc/mp4.go  | 8 ++++++++
 hevc/mp4.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index 65b7108..8094f74 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -47,9 +47,17 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		return nil, fmt.Errorf("pps cannot be null")
 	}
 
+	if len(spsList) > 31 || len(ppsList) > 255 {
+		return nil, fmt.Errorf("too many parameter sets")
+	}
+
 	size := 7
 	for _, list := range [][][]byte{spsList, ppsList} {
 		for _, nalu := range list {
+			if len(RemoveStartCode(nalu)) > 0xFFFF {
+				return nil, fmt.Errorf("parameter set too long")
+			}
+
 			size += 2 + len(nalu)
 		}
 	}
diff --git a/hevc/mp4.go b/hevc/mp4.go
index 0a9e561..f345913 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -85,8 +85,16 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 	size := 23
 	for _, list := range [][][]byte{vpsList, spsList, ppsList} {
+		if len(list) > 0xFFFF {
+			return nil, fmt.Errorf("too many parameter sets")
+		}
+
 		size += 3
 		for _, nalu := range list {
+			if len(avc.RemoveStartCode(nalu)) > 0xFFFF {
+				return nil, fmt.Errorf("parameter set too long")
+			}
+
 			size += 2 + len(nalu)
 		}
 	}
-- 
2.43.0


From 46263f0347e1d1633b368d43b44906d7b29f6da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 44/44] fix: SafeRead of the bit reader reads and reports reads
 beyond the data

---
 bufio/bits_reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bufio/bits_reader.go b/bufio/bits_reader.go
index bd9e0da..ea77e11 100644
--- a/bufio/bits_reader.go
+++ b/bufio/bits_reader.go
@@ -1,5 +1,7 @@
 package bufio
 
+import "io"
+
 // ReadBits 从字节切片中读取指定索引和长度的bit值
 func ReadBits(data []byte, startBit int, bitLength int) uint64 {
 	var result uint64
@@ -45,5 +47,9 @@ func (b *BitsReader) ReadBytes(length int) []byte {
 }
 
 func (b *BitsReader) SafeRead(length int) (uint64, error) {
-	return 0, nil
+	if length < 0 || length > len(b.Data)*8-b.Offset {
+		return 0, io.EOF
+	}
+
+	return b.Read(length), nil
 }
-- 
2.43.0

