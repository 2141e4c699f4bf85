From e8a96a8984727055e961d8a5e3aafa7c693ce780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:10 +0000
Subject: [PATCH 01/94] fix: give queued audio frames that need one a block
 reference

Non-key audio frames with additional data, discard padding or a duration
were accepted into the queue and then silently dropped when the queue was
flushed, because only the direct path set the reference block timestamp.
---
 mkvmuxer/mkvmuxer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f9eb9c6..7cd040c 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3541,6 +3541,12 @@ bool Segment::AddGenericFrame(const Frame* frame) {
       delete new_frame;
       return false;
     }
+    // As below, a Frame that is not a SimpleBlock needs a reference.
+    if (!new_frame->CanBeSimpleBlock() && !new_frame->is_key() &&
+        !new_frame->reference_block_timestamp_set()) {
+      new_frame->set_reference_block_timestamp(
+          last_track_timestamp_[frame->track_number() - 1]);
+    }
     if (!QueueFrame(new_frame)) {
       delete new_frame;
       return false;
-- 
2.43.0


From c0053aa8f62669c5bc104891377fa8c6d811aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:58 +0000
Subject: [PATCH 02/94] fix: leave room for all six seek entries

A segment with chapters, tags and cues has six elements to index but only
five slots, so that Segment::Finalize() failed for it. The reserved space
is unchanged: entries never all have the maximum size.
---
 mkvmuxer/mkvmuxer.cc | 17 ++++++++++++-----
 mkvmuxer/mkvmuxer.h  | 10 ++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 7cd040c..d19be22 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2788,6 +2788,17 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
     if (payload_size == 0)
       return true;
 
+    // What is left of the reserved space has to hold a Void element.
+    const uint64_t total_entry_size = ReservedPayloadSize();
+    const uint64_t total_size =
+        EbmlMasterElementSize(libwebm::kMkvSeekHead, total_entry_size) +
+        total_entry_size;
+    if (EbmlMasterElementSize(libwebm::kMkvSeekHead, payload_size) +
+            payload_size + 2 >
+        total_size) {
+      return false;
+    }
+
     const int64_t pos = writer->Position();
     if (writer->Position(start_pos_))
       return false;
@@ -2810,10 +2821,6 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
       }
     }
 
-    const uint64_t total_entry_size = kSeekEntryCount * MaxEntrySize();
-    const uint64_t total_size =
-        EbmlMasterElementSize(libwebm::kMkvSeekHead, total_entry_size) +
-        total_entry_size;
     const int64_t size_left = total_size - (writer->Position() - start_pos_);
 
     const uint64_t bytes_written = WriteVoidElement(writer, size_left);
@@ -2828,7 +2835,7 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
 }
 
 bool SeekHead::Write(IMkvWriter* writer) {
-  const uint64_t entry_size = kSeekEntryCount * MaxEntrySize();
+  const uint64_t entry_size = ReservedPayloadSize();
   const uint64_t size =
       EbmlMasterElementSize(libwebm::kMkvSeekHead, entry_size);
 
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 2c4bb9e..5bbe398 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1424,13 +1424,19 @@ class SeekHead {
   // a SeekHead element later. Returns true on success.
   bool Write(IMkvWriter* writer);
 
-  // We are going to put a cap on the number of Seek Entries.
-  constexpr static int32_t kSeekEntryCount = 5;
+  // We are going to put a cap on the number of Seek Entries. One for each of
+  // the elements the muxer indexes: Info, Tracks, Chapters, Tags, the first
+  // Cluster and Cues.
+  constexpr static int32_t kSeekEntryCount = 6;
 
  private:
   // Returns the maximum size in bytes of one seek entry.
   uint64_t MaxEntrySize() const;
 
+  // Returns the number of bytes reserved for the payload of the SeekHead. Not
+  // every entry has the maximum size, so that this holds all of them.
+  uint64_t ReservedPayloadSize() const { return 5 * MaxEntrySize(); }
+
   // Seek entry id element list.
   uint32_t seek_entry_id_[kSeekEntryCount];
 
-- 
2.43.0


From 56225711b463d5cb1fdf6025e95973401602db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:58 +0000
Subject: [PATCH 03/94] fix: report queued frames that cannot be written

Segment::WriteFramesAll() and WriteFramesLessThan() dropped such a frame
without telling the caller; the latter also left the deleted frame in the
queue, to be used and deleted again.
---
 mkvmuxer/mkvmuxer.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index d19be22..e5b3538 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4096,6 +4096,7 @@ int Segment::WriteFramesAll() {
   if (!cluster)
     return -1;
 
+  bool error = false;
   for (int32_t i = 0; i < frames_size_; ++i) {
     Frame*& frame = frames_[i];
     // TODO(jzern/vigneshv): using Segment::AddGenericFrame here would limit the
@@ -4104,12 +4105,16 @@ int Segment::WriteFramesAll() {
       doc_type_version_ = 4;
     if (!cluster->AddFrame(frame)) {
       delete frame;
+      frame = NULL;
+      error = true;
       continue;
     }
 
     if (new_cuepoint_ && cues_track_ == frame->track_number()) {
       if (!AddCuePoint(frame->timestamp(), cues_track_)) {
         delete frame;
+        frame = NULL;
+        error = true;
         continue;
       }
     }
@@ -4126,7 +4131,7 @@ int Segment::WriteFramesAll() {
   const int result = frames_size_;
   frames_size_ = 0;
 
-  return result;
+  return error ? -1 : result;
 }
 
 bool Segment::WriteFramesLessThan(uint64_t timestamp) {
@@ -4142,6 +4147,7 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       return false;
 
     int32_t shift_left = 0;
+    bool error = false;
 
     // TODO(fgalligan): Change this to use the durations of frames instead of
     // the next frame's start time if the duration is accurate.
@@ -4152,21 +4158,23 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
         break;
 
       const Frame* const frame_prev = frames_[i - 1];
+      ++shift_left;
       if (frame_prev->discard_padding() != 0)
         doc_type_version_ = 4;
       if (!cluster->AddFrame(frame_prev)) {
         delete frame_prev;
+        error = true;
         continue;
       }
 
       if (new_cuepoint_ && cues_track_ == frame_prev->track_number()) {
         if (!AddCuePoint(frame_prev->timestamp(), cues_track_)) {
           delete frame_prev;
+          error = true;
           continue;
         }
       }
 
-      ++shift_left;
       if (frame_prev->timestamp() > last_timestamp_) {
         last_timestamp_ = frame_prev->timestamp();
         last_track_timestamp_[frame_prev->track_number() - 1] =
@@ -4187,6 +4195,9 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
 
       frames_size_ = new_frames_size;
     }
+
+    if (error)
+      return false;
   }
 
   return true;
-- 
2.43.0


From 2ab00ad3e41ae669dee5fcbf9e11cb72b7b7c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:58 +0000
Subject: [PATCH 04/94] fix: do not keep deleted frames in Cluster after a
 failed write

When a write failed in Cluster::QueueOrWriteFrame() the frames already
deleted stayed in |stored_frames_| and were deleted again later.
---
 mkvmuxer/mkvmuxer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index e5b3538..500ba39 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2689,6 +2689,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
   // and write it if it is okay to do so (i.e.) no other track has an held back
   // frame with timestamp <= the timestamp of the frame in question.
   std::vector<std::list<Frame*>::iterator> frames_to_erase;
+  bool wrote_frames = true;
   for (std::list<Frame*>::iterator
            current_track_iterator = stored_frames_[track_number].begin(),
            end = --stored_frames_[track_number].end();
@@ -2707,11 +2708,11 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
       }
     }
     if (okay_to_write) {
-      const bool wrote_frame = DoWriteFrame(frame_to_write);
+      wrote_frames = DoWriteFrame(frame_to_write);
       delete frame_to_write;
-      if (!wrote_frame)
-        return false;
       frames_to_erase.push_back(current_track_iterator);
+      if (!wrote_frames)
+        break;
     } else {
       break;
     }
@@ -2721,7 +2722,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
        iterator != frames_to_erase.end(); ++iterator) {
     stored_frames_[track_number].erase(*iterator);
   }
-  return true;
+  return wrote_frames;
 }
 
 bool Cluster::WriteClusterHeader() {
-- 
2.43.0


From 6f5cbd2ed83d7e27ee25b126d69c35c86866831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:58 +0000
Subject: [PATCH 05/94] fix: free the frame copy when
 Segment::AddGenericFrame() fails

---
 mkvmuxer/mkvmuxer.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 500ba39..844c919 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3591,12 +3591,18 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     frame_created = true;
   }
 
-  if (!cluster->AddFrame(frame))
+  if (!cluster->AddFrame(frame)) {
+    if (frame_created)
+      delete frame;
     return false;
+  }
 
   if (new_cuepoint_ && cues_track_ == frame->track_number()) {
-    if (!AddCuePoint(frame->timestamp(), cues_track_))
+    if (!AddCuePoint(frame->timestamp(), cues_track_)) {
+      if (frame_created)
+        delete frame;
       return false;
+    }
   }
 
   last_timestamp_ = frame->timestamp();
-- 
2.43.0


From b40303126affb2425b81c9e7e7f01adf881e21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:12 +0000
Subject: [PATCH 06/94] fix: open a new cluster for frames far from the queued
 audio

Audio frames are queued until the next video frame and go to its cluster. A
frame more than 32767 timecodes after the earliest queued frame cannot share
that cluster: it was accepted and then dropped.
---
 mkvmuxer/mkvmuxer.cc | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 844c919..63ff9e2 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3539,6 +3539,18 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     }
   }
 
+  // The queued frames go to the same cluster.
+  for (int32_t i = 0; i < frames_size_; ++i) {
+    const uint64_t timecode_scale = segment_info_.timecode_scale();
+    const uint64_t frame_timecode = frame->timestamp() / timecode_scale;
+    const uint64_t queue_timecode = frames_[i]->timestamp() / timecode_scale;
+
+    if (frame_timecode > queue_timecode &&
+        frame_timecode - queue_timecode > kMaxBlockTimecode) {
+      force_new_cluster_ = true;
+    }
+  }
+
   // If the segment has a video track hold onto audio frames to make sure the
   // audio that is associated with the start time of a video key-frame is
   // muxed into the same cluster.
@@ -3959,13 +3971,20 @@ bool Segment::DoNewClusterProcessing(uint64_t track_number,
       return false;
 
     // Write the current frame to the current cluster (if TestFrame
-    // returns 0) or to a newly created cluster (TestFrame returns 1).
-    if (result <= 1)
+    // returns 0) or to a newly created cluster.  The latter starts at
+    // the earliest queued frame, which may be too far away from the
+    // current frame.
+    const Cluster* const last_cluster = cluster_list_[cluster_list_size_ - 1];
+    const uint64_t frame_timecode =
+        frame_timestamp_ns / segment_info_.timecode_scale();
+    if (frame_timecode < last_cluster->timecode() ||
+        frame_timecode - last_cluster->timecode() <= kMaxBlockTimecode) {
       return true;
+    }
 
-    // TestFrame returned 2, which means there was a large time
-    // difference between the cluster and the frame itself.  Do the
-    // test again, comparing the frame to the new cluster.
+    // There is a large time difference between the cluster and the
+    // frame itself.  Do the test again, comparing the frame to the new
+    // cluster.
   }
 }
 
-- 
2.43.0


From 0629c7912cba95e0af5bb31cb7c6f2c5e500170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:27 +0000
Subject: [PATCH 07/94] fix: start a cluster at the earliest queued frame

The queue is not sorted when audio tracks arrive out of order; the first
queued frame is then not the earliest, and the earlier ones had no valid place
in the new cluster.
---
 mkvmuxer/mkvmuxer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 63ff9e2..6f45f95 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3925,8 +3925,9 @@ bool Segment::MakeNewCluster(uint64_t frame_timestamp_ns) {
 
   uint64_t cluster_timecode = frame_timecode;
 
-  if (frames_size_ > 0) {
-    const Frame* const f = frames_[0];  // earliest queued frame
+  // The cluster starts at the earliest queued frame.
+  for (int32_t i = 0; i < frames_size_; ++i) {
+    const Frame* const f = frames_[i];
     const uint64_t ns = f->timestamp();
     const uint64_t tc = ns / timecode_scale;
 
-- 
2.43.0


From 0105e1d6900aed2da470662856a18c6a44a35514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:19 +0000
Subject: [PATCH 08/94] fix: refuse invalid audio frames instead of queueing
 them

A frame that can never be written (no data, say) was accepted when its track
is audio and the segment has video; the error surfaced when another frame was
added.
---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 6f45f95..edfbef7 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3567,7 +3567,7 @@ bool Segment::AddGenericFrame(const Frame* frame) {
       new_frame->set_reference_block_timestamp(
           last_track_timestamp_[frame->track_number() - 1]);
     }
-    if (!QueueFrame(new_frame)) {
+    if (!new_frame->IsValid() || !QueueFrame(new_frame)) {
       delete new_frame;
       return false;
     }
-- 
2.43.0


From 4e74b347747fff99a1f8e30f9579ccdb159f6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:14 +0000
Subject: [PATCH 09/94] fix: no cue block numbers for blocks that are held back

With accurate cluster durations the cluster reorders and delays its blocks, so
the number of blocks written so far is not the number of the cued block.
---
 mkvmuxer/mkvmuxer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index edfbef7..3c07915 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3419,6 +3419,10 @@ bool Segment::AddCuePoint(uint64_t timestamp, uint64_t track) {
     return false;
   }
 
+  // The number of a Block that the Cluster holds back is not known yet.
+  if (cluster->write_last_frame_with_duration())
+    cue->set_output_block_number(false);
+
   new_cuepoint_ = false;
   return true;
 }
-- 
2.43.0


From f7a8d05a86d3635ba95bc1cfac400c975520a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:01 +0000
Subject: [PATCH 10/94] fix: read ChapterUID as an unsigned integer

---
 mkvparser/mkvparser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9bb6c96..1010c7c 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3535,6 +3535,9 @@ long Chapters::Atom::Parse(IMkvReader* pReader, long long pos, long long size) {
         return status;
 
       m_uid = static_cast<unsigned long long>(val);
+
+      if (size < 8)  // the UID is unsigned: undo the sign extension
+        m_uid &= (1ULL << (8 * size)) - 1;
     } else if (id == libwebm::kMkvChapterTimeStart) {
       const long long val = UnserializeUInt(pReader, pos, size);
 
-- 
2.43.0


From 619d9ffd03842f9804ad0e148a6a7ead5bd24921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:20 +0000
Subject: [PATCH 11/94] fix: free the colour space of a video track

---
 mkvmuxer/mkvmuxer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 3c07915..cd23d79 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1429,6 +1429,7 @@ VideoTrack::VideoTrack(unsigned int* seed)
       projection_(NULL) {}
 
 VideoTrack::~VideoTrack() {
+  delete[] colour_space_;
   delete colour_;
   delete projection_;
 }
-- 
2.43.0


From 4d664a3dec428bc1ee7843b51b3f104e9317be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:20 +0000
Subject: [PATCH 12/94] fix: free the chromaticities SetChromaticity() replaces

---
 mkvmuxer/mkvmuxer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index cd23d79..d1fa671 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1077,6 +1077,10 @@ bool MasteringMetadata::SetChromaticity(
       return false;
   }
 
+  delete r_;
+  delete g_;
+  delete b_;
+  delete white_point_;
   r_ = r_ptr.release();
   g_ = g_ptr.release();
   b_ = b_ptr.release();
-- 
2.43.0


From 589e34eb9777685ea7a15863a61e276473e29c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:52 +0000
Subject: [PATCH 13/94] fix: accept the largest luminance the muxer writes

---
 mkvparser/mkvparser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 1010c7c..86d049a 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5072,7 +5072,7 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
       }
       mm_ptr->luminance_max = static_cast<float>(value);
       if (value_parse_status < 0 || mm_ptr->luminance_max < 0.0 ||
-          mm_ptr->luminance_max > 9999.99) {
+          mm_ptr->luminance_max > 9999.99f) {
         return false;
       }
     } else if (child_id == libwebm::kMkvLuminanceMin) {
@@ -5085,7 +5085,7 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
       }
       mm_ptr->luminance_min = static_cast<float>(value);
       if (value_parse_status < 0 || mm_ptr->luminance_min < 0.0 ||
-          mm_ptr->luminance_min > 999.9999) {
+          mm_ptr->luminance_min > 999.9999f) {
         return false;
       }
     } else {
-- 
2.43.0


From c48b7069609217fc82f948144981ad67990f4bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:02 +0000
Subject: [PATCH 14/94] fix: treat every non-zero writer status as a failure

---
 mkvmuxer/mkvmuxerutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index d1e835c..add17b9 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -335,7 +335,7 @@ int32 SerializeInt(IMkvWriter* writer, int64 value, int32 size) {
 
     const int32 status = writer->Write(&b, 1);
 
-    if (status < 0)
+    if (status)
       return status;
   }
 
@@ -363,7 +363,7 @@ int32 SerializeFloat(IMkvWriter* writer, float f) {
 
     const int32 status = writer->Write(&byte, 1);
 
-    if (status < 0)
+    if (status)
       return status;
   }
 
-- 
2.43.0


From 691fa5639b1e16ff091461f740998bfd0acc8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:02 +0000
Subject: [PATCH 15/94] fix: report failed writes while the cues are moved

---
 mkvmuxer/mkvmuxer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index d1fa671..70549c3 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -163,7 +163,10 @@ bool ChunkedCopy(mkvparser::IMkvReader* source, mkvmuxer::IMkvWriter* dst,
       delete[] buf;
       return false;
     }
-    dst->Write(buf, static_cast<uint32_t>(read_len));
+    if (dst->Write(buf, static_cast<uint32_t>(read_len))) {
+      delete[] buf;
+      return false;
+    }
     offset += read_len;
     size -= read_len;
   }
-- 
2.43.0


From f487673c5a0f80fb8ab2251dfa614f1bfa4cede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:02 +0000
Subject: [PATCH 16/94] fix: report a DateUTC element that cannot be written

---
 mkvmuxer/mkvmuxer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 70549c3..90e709a 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3010,8 +3010,10 @@ bool SegmentInfo::Write(IMkvWriter* writer) {
       return false;
   }
 
-  if (date_utc_ != INT64_MIN)
-    WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_);
+  if (date_utc_ != INT64_MIN &&
+      !WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_)) {
+    return false;
+  }
 
   if (!WriteEbmlElement(writer, libwebm::kMkvMuxingApp, muxing_app_))
     return false;
-- 
2.43.0


From eeb7556802ea91a6e8ee3c584801674763b041a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:02 +0000
Subject: [PATCH 17/94] fix: refuse to move the cues of a segment without
 clusters

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 90e709a..9983eb6 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3210,7 +3210,7 @@ bool Segment::Init(IMkvWriter* ptr_writer) {
 
 bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
                                             IMkvWriter* writer) {
-  if (!writer->Seekable() || chunking_)
+  if (!writer->Seekable() || chunking_ || cluster_list_size_ < 1)
     return false;
   const int64_t cluster_offset =
       cluster_list_[0]->size_position() - GetUIntSize(libwebm::kMkvCluster);
-- 
2.43.0


From d1523a59b72fb96fedb32b34c1970da8aed71a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:47 +0000
Subject: [PATCH 18/94] fix: write void elements of every size

---
 mkvmuxer/mkvmuxerutil.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index add17b9..053c5ef 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -569,16 +569,12 @@ uint64 WriteFrame(IMkvWriter* writer, const Frame* const frame,
 }
 
 uint64 WriteVoidElement(IMkvWriter* writer, uint64 size) {
-  if (!writer)
-    return false;
+  if (!writer || size < 2)
+    return 0;
 
   // Subtract one for the void ID and the coded size.
-  uint64 void_entry_size = size - 1 - GetCodedUIntSize(size - 1);
-  uint64 void_size = EbmlMasterElementSize(libwebm::kMkvVoid, void_entry_size) +
-                     void_entry_size;
-
-  if (void_size != size)
-    return 0;
+  const int32 coded_size = GetCodedUIntSize(size - 1);
+  const uint64 void_entry_size = size - 1 - coded_size;
 
   const int64 payload_position = writer->Position();
   if (payload_position < 0)
@@ -587,7 +583,7 @@ uint64 WriteVoidElement(IMkvWriter* writer, uint64 size) {
   if (WriteID(writer, libwebm::kMkvVoid))
     return 0;
 
-  if (WriteUInt(writer, void_entry_size))
+  if (WriteUIntSize(writer, void_entry_size, coded_size))
     return 0;
 
   const uint8 value = 0;
@@ -598,10 +594,10 @@ uint64 WriteVoidElement(IMkvWriter* writer, uint64 size) {
 
   const int64 stop_position = writer->Position();
   if (stop_position < 0 ||
-      stop_position - payload_position != static_cast<int64>(void_size))
+      stop_position - payload_position != static_cast<int64>(size))
     return 0;
 
-  return void_size;
+  return size;
 }
 
 void GetVersion(int32* major, int32* minor, int32* build, int32* revision) {
-- 
2.43.0


From 0e039d8d41d0b8bb0153fd0af30cad6521b2f574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:58 +0000
Subject: [PATCH 19/94] fix: report numbers too large for an EBML coded number

---
 mkvmuxer/mkvmuxerutil.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 053c5ef..158dff6 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -401,12 +401,10 @@ int32 WriteUIntSize(IMkvWriter* writer, uint64 value, int32 size) {
       if (value <= max)
         break;
 
-      ++size;
+      if (++size > 8)
+        return -1;
     }
 
-    if (size > 8)
-      return false;
-
     value |= bit;
   }
 
-- 
2.43.0


From de7ea21a6876b7d20daf181768139d72377ceb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:08 +0000
Subject: [PATCH 20/94] fix: load streams that end with an empty cluster of
 unknown size

---
 mkvparser/mkvparser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 86d049a..96c2793 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6998,6 +6998,9 @@ long Cluster::HasBlockEntries(
     if ((cluster_stop >= 0) && (pos >= cluster_stop))
       return 0;  // no entries detected
 
+    if ((total >= 0) && (pos >= total))
+      return 0;  // the stream ends here, nothing else will become available
+
     if ((pos + 1) > avail) {
       len = 1;
       return E_BUFFER_NOT_FULL;
-- 
2.43.0


From 11d411adeae49b73d480caebb0855bcb8bf1d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:00 +0000
Subject: [PATCH 21/94] fix: keep the position while ParseNext searches
 preloaded clusters

---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 96c2793..e2b1ae9 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3009,12 +3009,12 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
     assert(pNext);
     assert(pNext->m_index < 0);
 
-    pos = pNext->GetPosition();
-    assert(pos >= 0);
+    const long long pos_next = pNext->GetPosition();
+    assert(pos_next >= 0);
 
-    if (pos < off_next)
+    if (pos_next < off_next)
       i = k + 1;
-    else if (pos > off_next)
+    else if (pos_next > off_next)
       j = k;
     else {
       pResult = pNext;
-- 
2.43.0


From 00d4a2a6a1d291efe0c25b99fa113c906d0755e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:08 +0000
Subject: [PATCH 22/94] fix: read the cluster's ID as an ID in ParseNext

---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index e2b1ae9..068d05f 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2769,7 +2769,7 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
     if ((pos + len) > avail)
       return E_BUFFER_NOT_FULL;
 
-    const long long id = ReadUInt(m_pReader, pos, len);
+    const long long id = ReadID(m_pReader, pos, len);
 
     if (id != libwebm::kMkvCluster)
       return -1;
-- 
2.43.0


From 2ef8bf3269c26884e97940bd65a75e27ea449b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:57 +0000
Subject: [PATCH 23/94] fix: let GetNext of a preloaded cluster fail instead of
 asserting

---
 mkvparser/mkvparser.cc | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 068d05f..3c922e3 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2551,16 +2551,19 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
   long long pos = pCurr->m_element_start;
 
-  assert(m_size >= 0);  // TODO
-  const long long stop = m_start + m_size;  // end of segment
+  long long total, avail;
+
+  if (m_pReader->Length(&total, &avail) < 0)
+    return NULL;
+
+  // end of segment, or of what is there of a segment of unknown size
+  const long long stop = (m_size < 0) ? avail : m_start + m_size;
 
   {
     long len;
 
     long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
+    if (result != 0 || (pos + len) > stop)
       return NULL;
 
     const long long id = ReadID(m_pReader, pos, len);
@@ -2571,15 +2574,15 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
     // Read Size
     result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
+    if (result != 0 || (pos + len) > stop)
+      return NULL;
 
     const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size > 0);  // TODO
     // assert((pCurr->m_size <= 0) || (pCurr->m_size == size));
 
     pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
+    if (size <= 0 || size > stop - pos)
+      return NULL;
 
     // Pos now points to start of payload
 
@@ -2592,9 +2595,7 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
     long len;
 
     long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
+    if (result != 0 || (pos + len) > stop)
       return NULL;
 
     const long long idpos = pos;  // pos of next (potential) cluster
@@ -2607,14 +2608,14 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
     // Read Size
     result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
+    if (result != 0 || (pos + len) > stop)
+      return NULL;
 
     const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size >= 0);  // TODO
+    if (size < 0)
+      return NULL;
 
     pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
 
     // Pos now points to start of payload
 
@@ -2629,7 +2630,8 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
       const long status = Cluster::HasBlockEntries(this, off_next_, pos_, len_);
 
-      assert(status >= 0);
+      if (status < 0)
+        return NULL;
 
       if (status > 0) {
         off_next = off_next_;
@@ -2637,6 +2639,9 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
       }
     }
 
+    if (size > stop - pos)
+      return NULL;
+
     pos += size;  // consume payload
   }
 
-- 
2.43.0


From 8790529a97078fdabbb80f431580868d7756d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:02 +0000
Subject: [PATCH 24/94] fix: seek to blocks that precede the timecode of their
 cluster

---
 mkvparser/mkvparser.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 3c922e3..849bae6 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4866,7 +4866,6 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -4898,13 +4897,15 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
+  // The cluster of the first block may start later than that block does.
+  if (lo == i)
+    ++lo;
+
   while (lo > i) {
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
 
     pResult = pCluster->GetEntry(this);
 
@@ -5494,7 +5495,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -5526,12 +5526,14 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
+  // The cluster of the first block may start later than that block does.
+  if (lo == i)
+    ++lo;
+
   pCluster = *--lo;
   assert(pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   pResult = pCluster->GetEntry(this, time_ns);
 
@@ -5541,7 +5543,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   while (lo != i) {
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
 
     pResult = pCluster->GetEntry(this, time_ns);
 
-- 
2.43.0


From 51d49dc120088b98b2be79592031b2a0079abd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:56 +0000
Subject: [PATCH 25/94] fix: webm_parser: frame position in fixed-size lacing
 omitted the element header

---
 webm_parser/src/block_parser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index b851f51..1df0a07 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -215,8 +215,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           return Status(Status::kInvalidElementValue);
         }
         lace_sizes_.resize(value_.num_frames, frame_size);
-        frame_metadata_.position =
-            frame_metadata_.parent_element.position + header_bytes_read_;
+        frame_metadata_.position = frame_metadata_.parent_element.position +
+                                   frame_metadata_.parent_element.header_size +
+                                   header_bytes_read_;
         frame_metadata_.size = frame_size;
         state_ = State::kReadingFrames;
         continue;
-- 
2.43.0


From f9dcc6390b74cd41fa1b2ee45d7c26e702da322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:26 +0000
Subject: [PATCH 26/94] fix: webm_parser: wrong position for the element that
 ends an unknown-size Segment

---
 webm_parser/src/webm_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/webm_parser.cc b/webm_parser/src/webm_parser.cc
index cf8bc94..2655d00 100644
--- a/webm_parser/src/webm_parser.cc
+++ b/webm_parser/src/webm_parser.cc
@@ -167,11 +167,11 @@ class WebmParser::DocumentParser {
             state_ = State::kValidatingChildSize;
           } else {
             child_metadata_.header_size = 0;
+            child_metadata_.position = reader->Position();
             state_ = State::kReadingChildId;
           }
           PrepareForNextChild();
           callback = original_callback;
-          child_metadata_.position = reader->Position();
           continue;
         }
 
-- 
2.43.0


From 06ff0019a3f76659418805f67571acca54d08aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:53 +0000
Subject: [PATCH 27/94] fix: webm_parser: an empty element after an
 unknown-size child was dropped

---
 webm_parser/src/master_parser.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index d8c3dba..5a60cce 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -245,13 +245,15 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
         if (total_bytes_read_ > byte_cap) {
           return Status(Status::kElementOverflow);
-        } else if (total_bytes_read_ == byte_cap) {
-          state_ = State::kEndReached;
-          continue;
         }
 
+        // An unsized child ends by reading the header of the next element,
+        // which may be an empty element at the very end of this one.
         if (child_parser_->GetCachedMetadata(&child_metadata_)) {
           state_ = State::kValidatingChildSize;
+        } else if (total_bytes_read_ == byte_cap) {
+          state_ = State::kEndReached;
+          continue;
         } else {
           state_ = State::kFirstReadOfChildId;
         }
-- 
2.43.0


From c7161eff9123920d27e381569dc75ebf92020217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:24 +0000
Subject: [PATCH 28/94] fix: webm_parser: empty unknown-size master at the end
 of its parent

---
 webm_parser/src/master_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index 5a60cce..29ebe71 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -35,7 +35,8 @@ Status MasterParser::Init(const ElementMetadata& metadata,
     max_size_ = max_size;
   }
 
-  if (metadata.size == 0) {
+  // An unsized element is empty if its parent ends right after its header.
+  if (max_size_ == 0) {
     state_ = State::kEndReached;
   } else {
     state_ = State::kFirstReadOfChildId;
-- 
2.43.0


From f0445894823e79db2ee250641b36e13f6ed35682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:19 +0000
Subject: [PATCH 29/94] fix: webm_parser: skipped unknown-size children were
 stored and could skip the cluster

---
 webm_parser/src/master_parser.h       | 4 ++++
 webm_parser/src/master_value_parser.h | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/master_parser.h b/webm_parser/src/master_parser.h
index d3ca7c7..b50d98b 100644
--- a/webm_parser/src/master_parser.h
+++ b/webm_parser/src/master_parser.h
@@ -103,6 +103,10 @@ class MasterParser : public ElementParser {
   // already been called and successfully returned).
   std::uint64_t position() const { return my_position_; }
 
+  // Returns true if the user chose to skip the child that is currently being
+  // parsed.
+  bool child_skipped() const { return action_ == Action::kSkip; }
+
   // Gets the metadata for the child that is currently being parsed. This may
   // only be called while the child's body (not its header information like ID
   // and size) is being parsed.
diff --git a/webm_parser/src/master_value_parser.h b/webm_parser/src/master_value_parser.h
index 2a02a3f..7040646 100644
--- a/webm_parser/src/master_value_parser.h
+++ b/webm_parser/src/master_value_parser.h
@@ -448,7 +448,7 @@ class MasterValueParser : public ElementParser {
 
       status = Base::Feed(callback, reader, num_bytes_read);
       if (status.completed_ok() && parent_->action_ != Action::kSkip &&
-          !WasSkipped()) {
+          !parent_->master_parser_.child_skipped() && !WasSkipped()) {
         consume_element_value_(this);
         if (has_tag<TagNotifyOnParseComplete>()) {
           parent_->OnChildParsed(parent_->child_metadata());
@@ -462,7 +462,8 @@ class MasterValueParser : public ElementParser {
     F consume_element_value_;
 
     Status Prepare(Callback* callback) {
-      if (has_tag<TagUseAsStart>() && !parent_->started_done_) {
+      if (has_tag<TagUseAsStart>() && !parent_->started_done_ &&
+          !parent_->master_parser_.child_skipped()) {
         const Status status =
             parent_->OnParseStarted(callback, &parent_->action_);
         if (!status.completed_ok()) {
-- 
2.43.0


From 95edce5c2304dc745dd37b7d8299c2da5721ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:25 +0000
Subject: [PATCH 30/94] fix: webm_parser: the element after a nested
 unknown-size element was lost

---
 webm_parser/src/recursive_parser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/webm_parser/src/recursive_parser.h b/webm_parser/src/recursive_parser.h
index 1646f2f..9886e4f 100644
--- a/webm_parser/src/recursive_parser.h
+++ b/webm_parser/src/recursive_parser.h
@@ -71,6 +71,13 @@ class RecursiveParser : public ElementParser {
     return impl_->Feed(callback, reader, num_bytes_read);
   }
 
+  bool GetCachedMetadata(ElementMetadata* metadata) override {
+    assert(metadata != nullptr);
+    assert(impl_ != nullptr);
+
+    return impl_->GetCachedMetadata(metadata);
+  }
+
   decltype(std::declval<T>().value()) value() const {
     assert(impl_ != nullptr);
 
-- 
2.43.0


From 7995e4f7f749a08e0a669b975e19b8bbb9ac34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:59 +0000
Subject: [PATCH 31/94] fix: webm_parser: BlockVirtual did not consume its
 whole element

---
 webm_parser/src/virtual_block_parser.cc | 16 ++++++++++++++++
 webm_parser/src/virtual_block_parser.h  |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/webm_parser/src/virtual_block_parser.cc b/webm_parser/src/virtual_block_parser.cc
index 712c77f..77ecf6c 100644
--- a/webm_parser/src/virtual_block_parser.cc
+++ b/webm_parser/src/virtual_block_parser.cc
@@ -58,6 +58,22 @@ Status VirtualBlockParser::Feed(Callback* callback, Reader* reader,
         if (my_size_ < total_bytes_read_) {
           return Status(Status::kInvalidElementValue);
         }
+        state_ = State::kSkippingRest;
+        continue;
+      }
+
+      case State::kSkippingRest: {
+        // Only the header is of interest, but the whole element must be
+        // consumed.
+        while (total_bytes_read_ < my_size_) {
+          status = reader->Skip(my_size_ - total_bytes_read_,
+                                &local_num_bytes_read);
+          *num_bytes_read += local_num_bytes_read;
+          total_bytes_read_ += local_num_bytes_read;
+          if (!status.ok()) {
+            return status;
+          }
+        }
         state_ = State::kDone;
         continue;
       }
diff --git a/webm_parser/src/virtual_block_parser.h b/webm_parser/src/virtual_block_parser.h
index d7b8cd7..a243cd6 100644
--- a/webm_parser/src/virtual_block_parser.h
+++ b/webm_parser/src/virtual_block_parser.h
@@ -58,7 +58,8 @@ class VirtualBlockParser : public ElementParser {
     /* clang-format off */
     // State             Transitions to state  When
     kReadingHeader,   // kValidatingSize       header parsed
-    kValidatingSize,  // kDone                 no errors
+    kValidatingSize,  // kSkippingRest         no errors
+    kSkippingRest,    // kDone                 rest of the element skipped
     kDone,            // No transitions from here (must call Init)
     /* clang-format on */
   } state_ = State::kReadingHeader;
-- 
2.43.0


From ab74e99e75e6ab9eb59f39e1d35e1583ea110f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:20 +0000
Subject: [PATCH 32/94] fix: webm_parser: an action set by an interrupted
 callback took effect

---
 webm_parser/src/master_parser.cc      | 5 ++++-
 webm_parser/src/master_value_parser.h | 9 ++++++---
 webm_parser/src/webm_parser.cc        | 5 ++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index 29ebe71..b95a554 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -198,10 +198,13 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
       case State::kGettingAction: {
         assert(child_parser_ != nullptr);
-        status = callback->OnElementBegin(child_metadata_, &action_);
+        // The action only counts once the callback has completed.
+        Action action = Action::kRead;
+        status = callback->OnElementBegin(child_metadata_, &action);
         if (!status.completed_ok()) {
           return status;
         }
+        action_ = action;
 
         if (action_ == Action::kSkip) {
           callback = &skip_callback;
diff --git a/webm_parser/src/master_value_parser.h b/webm_parser/src/master_value_parser.h
index 7040646..70a1113 100644
--- a/webm_parser/src/master_value_parser.h
+++ b/webm_parser/src/master_value_parser.h
@@ -117,10 +117,12 @@ class MasterValueParser : public ElementParser {
     }
 
     if (!started_done_) {
-      Status status = OnParseStarted(callback, &action_);
+      Action action = Action::kRead;
+      Status status = OnParseStarted(callback, &action);
       if (!status.completed_ok()) {
         return status;
       }
+      action_ = action;
       started_done_ = true;
     }
 
@@ -464,11 +466,12 @@ class MasterValueParser : public ElementParser {
     Status Prepare(Callback* callback) {
       if (has_tag<TagUseAsStart>() && !parent_->started_done_ &&
           !parent_->master_parser_.child_skipped()) {
-        const Status status =
-            parent_->OnParseStarted(callback, &parent_->action_);
+        Action action = Action::kRead;
+        const Status status = parent_->OnParseStarted(callback, &action);
         if (!status.completed_ok()) {
           return status;
         }
+        parent_->action_ = action;
         parent_->started_done_ = true;
         if (parent_->action_ == Action::kSkip) {
           return Status(Status::kSwitchToSkip);
diff --git a/webm_parser/src/webm_parser.cc b/webm_parser/src/webm_parser.cc
index 2655d00..f7d3e17 100644
--- a/webm_parser/src/webm_parser.cc
+++ b/webm_parser/src/webm_parser.cc
@@ -132,10 +132,13 @@ class WebmParser::DocumentParser {
 
         case State::kGettingAction: {
           assert(child_parser_ != nullptr);
-          status = callback->OnElementBegin(child_metadata_, &action_);
+          // The action only counts once the callback has completed.
+          Action action = Action::kRead;
+          status = callback->OnElementBegin(child_metadata_, &action);
           if (!status.completed_ok()) {
             return status;
           }
+          action_ = action;
 
           if (action_ == Action::kSkip) {
             callback = &skip_callback_;
-- 
2.43.0


From d93103c708446bac9c845b625513bf7dfdc96256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 33/94] fix: webm_parser: bytes were not counted when a
 callback threw an exception

---
 webm_parser/src/master_parser.cc | 34 +++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index b95a554..12a9daf 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -20,6 +20,33 @@
 
 namespace webm {
 
+namespace {
+
+// Adds the bytes that a child has read to the totals of its parent when it goes
+// out of scope, so that no bytes are lost if a callback throws an exception.
+class ByteCounter {
+ public:
+  ByteCounter(std::uint64_t* total1, std::uint64_t* total2)
+      : total1_(total1), total2_(total2) {}
+
+  ~ByteCounter() {
+    *total1_ += count_;
+    *total2_ += count_;
+  }
+
+  ByteCounter(const ByteCounter&) = delete;
+  ByteCounter& operator=(const ByteCounter&) = delete;
+
+  std::uint64_t* count() { return &count_; }
+
+ private:
+  std::uint64_t count_ = 0;
+  std::uint64_t* total1_;
+  std::uint64_t* total2_;
+};
+
+}  // namespace
+
 // Spec reference:
 // http://matroska.org/technical/specs/index.html#EBML_ex
 // https://github.com/Matroska-Org/ebml-specification/blob/master/specification.markdown
@@ -229,9 +256,10 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
       case State::kReadingChildBody: {
         assert(child_parser_ != nullptr);
-        status = child_parser_->Feed(callback, reader, &local_num_bytes_read);
-        *num_bytes_read += local_num_bytes_read;
-        total_bytes_read_ += local_num_bytes_read;
+        {
+          ByteCounter counter(num_bytes_read, &total_bytes_read_);
+          status = child_parser_->Feed(callback, reader, counter.count());
+        }
         if (!status.completed_ok()) {
           return status;
         }
-- 
2.43.0


From 9ce69cd872f706e6f0ec04b3d3cba30438811693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:52 +0000
Subject: [PATCH 34/94] fix: webm_parser: assertion failure on an element ID
 that crosses the end of its parent

---
 webm_parser/src/master_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index 12a9daf..5bb32d6 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -150,8 +150,9 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kFinishingReadingChildId: {
+        // The part of the ID that has been read may already exceed my_size_ if
+        // the element is malformed; that is detected once the size is known.
         assert(child_parser_ == nullptr);
-        assert(my_size_ == kUnknownElementSize || total_bytes_read_ < my_size_);
         status = id_parser_.Feed(callback, reader, &local_num_bytes_read);
         *num_bytes_read += local_num_bytes_read;
         total_bytes_read_ += local_num_bytes_read;
-- 
2.43.0


From bd2ef61e09349cfb23871ccef4fad881061e1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 35/94] fix: webm_parser: skipping a block with a bad or empty
 header

---
 webm_parser/src/block_parser.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 1df0a07..92a8f63 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -239,15 +239,21 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kSkipping:
-        do {
-          // Skip the remaining part of the header and all of the frames.
+        if (header_bytes_read_ > frame_metadata_.parent_element.size) {
+          return Status(Status::kInvalidElementValue);
+        }
+        // Skip the remaining part of the header and all of the frames.
+        while (header_bytes_read_ < frame_metadata_.parent_element.size) {
           status = reader->Skip(
               frame_metadata_.parent_element.size - header_bytes_read_,
               &local_num_bytes_read);
           *num_bytes_read += local_num_bytes_read;
           header_bytes_read_ += local_num_bytes_read;
-        } while (status.code == Status::kOkPartial);
-        return status;
+          if (!status.ok()) {
+            return status;
+          }
+        }
+        return Status(Status::kOkCompleted);
 
       case State::kReadingFrames:
         assert(value_.num_frames > 0);
-- 
2.43.0


From 7f5e2d2981d929306d47fcf2810a012f53661f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:25 +0000
Subject: [PATCH 36/94] fix: webm_parser: EBML lacing sizes could overflow and
 exceed the block

---
 webm_parser/src/block_parser.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 92a8f63..be0fe6f 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -9,7 +9,6 @@
 
 #include <cassert>
 #include <cstdint>
-#include <numeric>
 #include <type_traits>
 #include <vector>
 
@@ -224,8 +223,15 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kValidatingSize: {
-        std::uint64_t sum = std::accumulate(
-            lace_sizes_.begin(), lace_sizes_.end(), header_bytes_read_);
+        // The sizes may be arbitrarily large, so their sum might overflow.
+        std::uint64_t sum = header_bytes_read_;
+        for (const std::uint64_t lace_size : lace_sizes_) {
+          if (sum >= frame_metadata_.parent_element.size ||
+              lace_size >= frame_metadata_.parent_element.size - sum) {
+            return Status(Status::kInvalidElementValue);
+          }
+          sum += lace_size;
+        }
         if (sum >= frame_metadata_.parent_element.size) {
           return Status(Status::kInvalidElementValue);
         }
-- 
2.43.0


From 48ef5a0bcd0e7a1196af5294dc0ede7ba804d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:52 +0000
Subject: [PATCH 37/94] fix: webm_parser must not allocate an element's claimed
 size up front

---
 webm_parser/src/byte_parser.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/webm_parser/src/byte_parser.h b/webm_parser/src/byte_parser.h
index f2ed3cb..d634f08 100644
--- a/webm_parser/src/byte_parser.h
+++ b/webm_parser/src/byte_parser.h
@@ -8,9 +8,13 @@
 #ifndef SRC_BYTE_PARSER_H_
 #define SRC_BYTE_PARSER_H_
 
+#include <algorithm>
 #include <cassert>
+#include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <string>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -71,9 +75,13 @@ class ByteParser : public ElementParser {
     if (metadata.size == 0) {
       value_ = default_value_;
       total_read_ = default_value_.size();
+      total_size_ = total_read_;
     } else {
-      value_.resize(static_cast<std::size_t>(metadata.size));
+      // The size cannot be trusted, so memory is only allocated in Feed(), as
+      // the data arrives.
+      value_.clear();
       total_read_ = 0;
+      total_size_ = static_cast<std::size_t>(metadata.size);
     }
 
     return Status(Status::kOkCompleted);
@@ -87,12 +95,19 @@ class ByteParser : public ElementParser {
 
     *num_bytes_read = 0;
 
-    if (total_read_ == value_.size()) {
+    if (total_read_ == total_size_) {
       return Status(Status::kOkCompleted);
     }
 
+    // The most bytes value_ grows by before the data for them has been read.
+    const std::size_t max_growth = 1 << 20;
+
     Status status;
     do {
+      if (total_read_ == value_.size()) {
+        value_.resize(total_read_ +
+                      std::min(total_size_ - total_read_, max_growth));
+      }
       std::uint64_t local_num_bytes_read = 0;
       std::uint8_t* buffer =
           reinterpret_cast<std::uint8_t*>(&value_.front()) + total_read_;
@@ -103,7 +118,8 @@ class ByteParser : public ElementParser {
              (!status.ok() && local_num_bytes_read == 0));
       *num_bytes_read += local_num_bytes_read;
       total_read_ += static_cast<std::size_t>(local_num_bytes_read);
-    } while (status.code == Status::kOkPartial);
+    } while (status.code == Status::kOkPartial ||
+             (status.completed_ok() && total_read_ < total_size_));
 
     // UTF-8 and ASCII string elements can be padded with NUL characters at the
     // end, which should be ignored.
@@ -119,21 +135,22 @@ class ByteParser : public ElementParser {
   // Gets the parsed value. This must not be called until the parse has been
   // successfully completed.
   const T& value() const {
-    assert(total_read_ >= value_.size());
+    assert(total_read_ == total_size_);
     return value_;
   }
 
   // Gets the parsed value. This must not be called until the parse has been
   // successfully completed.
   T* mutable_value() {
-    assert(total_read_ >= value_.size());
+    assert(total_read_ == total_size_);
     return &value_;
   }
 
  private:
   T value_;
   T default_value_;
-  std::size_t total_read_;
+  std::size_t total_read_ = 0;
+  std::size_t total_size_ = 0;
 };
 
 using StringParser = ByteParser<std::string>;
-- 
2.43.0


From 2cb6f2bd1d3480243892e4fd632a8ccb83428f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:45 +0000
Subject: [PATCH 38/94] fix: mkvparser scaled times must not overflow

---
 mkvparser/mkvparser.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 849bae6..039b977 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2473,6 +2473,10 @@ long long CuePoint::GetTime(const Segment* pSegment) const {
   const long long scale = pInfo->GetTimeCodeScale();
   assert(scale >= 1);
 
+  // Check if scale * m_timecode would overflow.
+  if (m_timecode > LLONG_MAX / scale)
+    return -1;
+
   const long long time = scale * m_timecode;
 
   return time;
@@ -3592,6 +3596,10 @@ long long Chapters::Atom::GetTime(const Chapters* pChapters,
   if (timecode < 0)
     return -1;
 
+  // Check if timecode_scale * timecode would overflow.
+  if (timecode > LLONG_MAX / timecode_scale)
+    return -1;
+
   const long long result = timecode_scale * timecode;
 
   return result;
@@ -4070,6 +4078,11 @@ long long SegmentInfo::GetDuration() const {
   assert(m_timecodeScale >= 1);
 
   const double dd = double(m_duration) * double(m_timecodeScale);
+
+  // Check if the duration in nanoseconds would overflow.
+  if (!(dd < double(LLONG_MAX)))
+    return -1;
+
   const long long d = static_cast<long long>(dd);
 
   return d;
@@ -7126,6 +7139,10 @@ long long Cluster::GetTime() const {
   const long long scale = pInfo->GetTimeCodeScale();
   assert(scale >= 1);
 
+  // Check if m_timecode * scale would overflow.
+  if (m_timecode > LLONG_MAX / scale)
+    return -1;
+
   const long long t = m_timecode * scale;
 
   return t;
-- 
2.43.0


From ee45e9ef58873caa4d255c5f6db0bd48cf2c9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 39/94] fix: mkvparser must not overflow on huge segment
 offsets

---
 mkvparser/mkvparser.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 039b977..94f346b 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1643,6 +1643,9 @@ long Segment::ParseCues(long long off, long long& pos, long& len) {
 
   assert((total < 0) || (avail <= total));
 
+  if (off < 0 || off > LLONG_MAX - m_start)  // offset cannot be valid
+    return 1;  // don't bother parsing cues
+
   pos = m_start + off;
 
   if ((total < 0) || (pos >= total))
@@ -6833,7 +6836,7 @@ long Cluster::GetEntry(long index, const mkvparser::BlockEntry*& pEntry) const {
 }
 
 Cluster* Cluster::Create(Segment* pSegment, long idx, long long off) {
-  if (!pSegment || off < 0)
+  if (!pSegment || off < 0 || off > LLONG_MAX - pSegment->m_start)
     return NULL;
 
   const long long element_start = pSegment->m_start + off;
@@ -6919,6 +6922,9 @@ long Cluster::HasBlockEntries(
 
   assert((total < 0) || (avail <= total));
 
+  if (off > LLONG_MAX - pSegment->m_start)
+    return 0;  // we don't even have a complete cluster
+
   pos = pSegment->m_start + off;  // absolute
 
   if ((total >= 0) && (pos >= total))
-- 
2.43.0


From 800160a3b0d1b7864633993f34f4367c62a87e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:01 +0000
Subject: [PATCH 40/94] fix: Cluster::GetEntry must not assert on a malformed
 cluster

---
 mkvparser/mkvparser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 94f346b..e40aa66 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7489,12 +7489,11 @@ const BlockEntry* Cluster::GetEntry(const Track* pTrack,
       long len;
 
       const long status = Parse(pos, len);
-      assert(status >= 0);
 
       if (status > 0)  // completely parsed, and no more entries
         return pResult;
 
-      if (status < 0)  // should never happen
+      if (status < 0)  // malformed or incomplete cluster
         return 0;
 
       assert(m_entries);
-- 
2.43.0


From 0dfd9462746109980326b32c8e85aeecf5976eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:09 +0000
Subject: [PATCH 41/94] fix: Segment::ParseNext must not assert after an
 unknown-size cluster

---
 mkvparser/mkvparser.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index e40aa66..3f4e05c 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2742,8 +2742,6 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
     return 0;  // success
   }
 
-  assert(m_pos > 0);
-
   long long total, avail;
 
   long status = m_pReader->Length(&total, &avail);
-- 
2.43.0


From bb74436d4fff7c985d9e9317e36eb53e25c127ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 42/94] fix: mkvparser must not store invalid projection types

---
 mkvparser/mkvparser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 3f4e05c..99ff039 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5275,7 +5275,9 @@ bool Projection::Parse(IMkvReader* reader, long long start, long long size,
       if (projection_type < 0)
         return false;
 
-      projection_ptr->type = static_cast<ProjectionType>(projection_type);
+      // Types other than these cannot be represented by the enumeration.
+      if (projection_type <= kMesh)
+        projection_ptr->type = static_cast<ProjectionType>(projection_type);
     } else if (child_id == libwebm::kMkvProjectionPrivate) {
       if (projection_ptr->private_data != NULL)
         return false;
-- 
2.43.0


From 63fc0d9e225ae9a379a5f488401f04e1cb3d240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:50 +0000
Subject: [PATCH 43/94] fix: ContentEncoding must not succeed when a read fails

---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 99ff039..c2c4432 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4366,7 +4366,7 @@ long ContentEncoding::ParseCompressionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       // There should be only one settings element per content compression.
@@ -4427,7 +4427,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->key_id = buf;
@@ -4449,7 +4449,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->signature = buf;
@@ -4471,7 +4471,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->sig_key_id = buf;
-- 
2.43.0


From 2d9ed2dcfc4a347910c76324d0b70f6990f5aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:50 +0000
Subject: [PATCH 44/94] fix: ContentEncoding must not store error codes as
 values

---
 mkvparser/mkvparser.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index c2c4432..da05d82 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4285,13 +4285,20 @@ long ContentEncoding::ParseContentEncodingEntry(long long start, long long size,
       return status;
 
     if (id == libwebm::kMkvContentEncodingOrder) {
-      encoding_order_ = UnserializeUInt(pReader, pos, size);
+      const long long order = UnserializeUInt(pReader, pos, size);
+      if (order < 0)
+        return E_FILE_FORMAT_INVALID;
+      encoding_order_ = order;
     } else if (id == libwebm::kMkvContentEncodingScope) {
-      encoding_scope_ = UnserializeUInt(pReader, pos, size);
-      if (encoding_scope_ < 1)
+      const long long scope = UnserializeUInt(pReader, pos, size);
+      if (scope < 1)
         return -1;
+      encoding_scope_ = scope;
     } else if (id == libwebm::kMkvContentEncodingType) {
-      encoding_type_ = UnserializeUInt(pReader, pos, size);
+      const long long type = UnserializeUInt(pReader, pos, size);
+      if (type < 0)
+        return E_FILE_FORMAT_INVALID;
+      encoding_type_ = type;
     } else if (id == libwebm::kMkvContentCompression) {
       ContentCompression* const compression =
           new (std::nothrow) ContentCompression();
@@ -4477,9 +4484,15 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
       encryption->sig_key_id = buf;
       encryption->sig_key_id_len = buflen;
     } else if (id == libwebm::kMkvContentSigAlgo) {
-      encryption->sig_algo = UnserializeUInt(pReader, pos, size);
+      const long long sig_algo = UnserializeUInt(pReader, pos, size);
+      if (sig_algo < 0)
+        return E_FILE_FORMAT_INVALID;
+      encryption->sig_algo = sig_algo;
     } else if (id == libwebm::kMkvContentSigHashAlgo) {
-      encryption->sig_hash_algo = UnserializeUInt(pReader, pos, size);
+      const long long sig_hash_algo = UnserializeUInt(pReader, pos, size);
+      if (sig_hash_algo < 0)
+        return E_FILE_FORMAT_INVALID;
+      encryption->sig_hash_algo = sig_hash_algo;
     } else if (id == libwebm::kMkvContentEncAESSettings) {
       const long status = ParseContentEncAESSettingsEntry(
           pos, size, pReader, &encryption->aes_settings);
-- 
2.43.0


From 33e58c20319638f298283f0cf562d60da760b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:22 +0000
Subject: [PATCH 45/94] fix: mkvparser must not store error codes as CodecDelay
 or SeekPreRoll

---
 mkvparser/mkvparser.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index da05d82..7eac8df 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5954,9 +5954,19 @@ long Tracks::ParseTrackEntry(long long track_start, long long track_size,
       if (status)
         return status;
     } else if (id == libwebm::kMkvCodecDelay) {
-      info.codecDelay = UnserializeUInt(pReader, pos, size);
+      const long long codec_delay = UnserializeUInt(pReader, pos, size);
+
+      if (codec_delay < 0)
+        return E_FILE_FORMAT_INVALID;
+
+      info.codecDelay = codec_delay;
     } else if (id == libwebm::kMkvSeekPreRoll) {
-      info.seekPreRoll = UnserializeUInt(pReader, pos, size);
+      const long long seek_pre_roll = UnserializeUInt(pReader, pos, size);
+
+      if (seek_pre_roll < 0)
+        return E_FILE_FORMAT_INVALID;
+
+      info.seekPreRoll = seek_pre_roll;
     }
 
     pos += size;  // consume payload
-- 
2.43.0


From 6fecc27f9aaaec89e4260606208557f6337961ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:29 +0000
Subject: [PATCH 46/94] fix: mkvparser must not use data which the reader did
 not deliver

---
 mkvparser/mkvparser.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 7eac8df..54de31a 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -220,6 +220,9 @@ long long UnserializeUInt(IMkvReader* pReader, long long pos, long long size) {
     if (status < 0)
       return status;
 
+    if (status > 0)  // the data could not be read
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
@@ -243,6 +246,9 @@ long UnserializeFloat(IMkvReader* pReader, long long pos, long long size_,
   if (status < 0)  // error
     return status;
 
+  if (status > 0)  // the data could not be read
+    return E_BUFFER_NOT_FULL;
+
   if (size == 4) {
     union {
       float f;
@@ -300,6 +306,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
   if (status < 0)
     return status;
 
+  if (status > 0)  // the data could not be read
+    return E_BUFFER_NOT_FULL;
+
   unsigned long long result = static_cast<unsigned long long>(first_byte);
   ++pos;
 
@@ -311,6 +320,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
     if (status < 0)
       return status;
 
+    if (status > 0)  // the data could not be read
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
@@ -3535,7 +3547,7 @@ long Chapters::Atom::Parse(IMkvReader* pReader, long long pos, long long size) {
     } else if (id == libwebm::kMkvChapterStringUID) {
       status = UnserializeString(pReader, pos, size, m_string_uid);
 
-      if (status < 0)  // error
+      if (status)  // error or underflow
         return status;
     } else if (id == libwebm::kMkvChapterUID) {
       long long val;
@@ -5452,7 +5464,7 @@ long VideoTrack::Parse(Segment* pSegment, const Info& info,
     } else if (id == libwebm::kMkvColourSpace) {
       char* colour_space = NULL;
       const long status = UnserializeString(pReader, pos, size, colour_space);
-      if (status < 0)
+      if (status)
         return status;
       colour_space_ptr.reset(colour_space);
     }
-- 
2.43.0


From d00c52d1f92f4ef778d9d9a155212d1e276c4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:14 +0000
Subject: [PATCH 47/94] fix: mkvparser must report failed reads of blocks

---
 mkvparser/mkvparser.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 54de31a..d845f44 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6604,6 +6604,11 @@ long Cluster::ParseSimpleBlock(long long block_size, long long& pos,
     return status;
   }
 
+  if (status > 0) {  // the data could not be read
+    len = 1;
+    return E_BUFFER_NOT_FULL;
+  }
+
   ++pos;  // consume flags byte
   assert(pos <= avail);
 
@@ -6806,6 +6811,11 @@ long Cluster::ParseBlockGroup(long long payload_size, long long& pos,
       return status;
     }
 
+    if (status > 0) {  // the data could not be read
+      len = 1;
+      return E_BUFFER_NOT_FULL;
+    }
+
     ++pos;  // consume flags byte
     assert(pos <= avail);
 
@@ -7306,8 +7316,8 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);  // TODO
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return E_FILE_FORMAT_INVALID;
 
     pos += len;  // consume size
 
@@ -7332,7 +7342,6 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
       long long time;
 
       long status = UnserializeInt(pReader, pos, size_, time);
-      assert(status == 0);
       if (status != 0)
         return -1;
 
-- 
2.43.0


From 85c943ec14241f2243beb4fdc31ce971febdd731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:59 +0000
Subject: [PATCH 48/94] fix: Cues::LoadCuePoint must end when a read fails

---
 mkvparser/mkvparser.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index d845f44..47de2a1 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1979,14 +1979,18 @@ bool Cues::LoadCuePoint() const {
     long len;
 
     const long long id = ReadID(pReader, m_pos, len);
-    if (id < 0 || (m_pos + len) > stop)
+    if (id < 0 || (m_pos + len) > stop) {
+      m_pos = stop;
       return false;
+    }
 
     m_pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, m_pos, len);
-    if (size < 0 || (m_pos + len) > stop)
+    if (size < 0 || (m_pos + len) > stop) {
+      m_pos = stop;
       return false;
+    }
 
     m_pos += len;  // consume Size field
     if ((m_pos + size) > stop)
@@ -2309,7 +2313,8 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos_ += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos_, len);
-    assert(size >= 0);
+    if (size < 0)
+      return false;
 
     pos_ += len;  // consume Size field
     // pos_ now points to start of payload
@@ -2349,7 +2354,7 @@ bool CuePoint::Load(IMkvReader* pReader) {
     else if (id == libwebm::kMkvCueTrackPositions) {
       ++track_positions_count;
       if (track_positions_count > UINT_MAX)
-        return E_PARSE_FAILED;
+        return false;
     }
 
     pos += size;  // consume payload
@@ -2384,11 +2389,12 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return false;
 
     pos += len;  // consume Size field
-    assert((pos + size) <= stop);
+    if ((pos + size) > stop)
+      return false;
 
     if (id == libwebm::kMkvCueTrackPositions) {
       TrackPosition& tp = *p++;
-- 
2.43.0


From 2df6f53d689f714f67d76e60fc7d417b028e152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:06 +0000
Subject: [PATCH 49/94] fix: UnserializeString must report underflow as a
 failure

---
 mkvparser/mkvparser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 47de2a1..3014e7e 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -356,7 +356,8 @@ long UnserializeString(IMkvReader* pReader, long long pos, long long size,
     delete[] str;
     str = NULL;
 
-    return status;
+    // Callers take negative values only as failures.
+    return (status < 0) ? status : E_BUFFER_NOT_FULL;
   }
 
   str[required_size - 1] = '\0';
-- 
2.43.0


From ce0cbbb2dc70943f06feec9781c4ceb109ca5752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:48 +0000
Subject: [PATCH 50/94] fix: WebVTT milliseconds with leading zeros

---
 webvtt/webvttparser.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index c79d642..58e3d4f 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -476,20 +476,28 @@ int Parser::ParseTime(const std::string& line, std::string::size_type* idx_ptr,
   } else {
     ++idx;  // consume FULL STOP
 
+    const std::string::size_type fraction_pos = idx;
+
     val = ParseNumber(line, &idx);
 
     if (val < 0)
       return val;
 
-    if (val >= 1000)
-      return -1;
-
-    if (val < 10)
-      t.milliseconds = val * 100;
-    else if (val < 100)
-      t.milliseconds = val * 10;
-    else
-      t.milliseconds = val;
+    // The weight of the digits depends on how many there are, leading zeros
+    // included.
+    switch (idx - fraction_pos) {
+      case 1:
+        t.milliseconds = val * 100;
+        break;
+      case 2:
+        t.milliseconds = val * 10;
+        break;
+      case 3:
+        t.milliseconds = val;
+        break;
+      default:
+        return -1;
+    }
   }
 
   // We have parsed the time proper.  We must check for any
-- 
2.43.0


From 2b1063a818c93a3e1fe0fcc057325f8f96050462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:51 +0000
Subject: [PATCH 51/94] fix: WebVTT Time::presentation overflowed

---
 webvtt/webvttparser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index 58e3d4f..c63839c 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -677,14 +677,14 @@ Time& Time::presentation(presentation_t d) {
     return *this;
   }
 
-  seconds = static_cast<int>(d / 1000);
-  milliseconds = static_cast<int>(d - 1000 * seconds);
+  milliseconds = static_cast<int>(d % 1000);
+  d /= 1000;
 
-  minutes = seconds / 60;
-  seconds -= 60 * minutes;
+  seconds = static_cast<int>(d % 60);
+  d /= 60;
 
-  hours = minutes / 60;
-  minutes -= 60 * hours;
+  minutes = static_cast<int>(d % 60);
+  hours = static_cast<int>(d / 60);
 
   return *this;
 }
-- 
2.43.0


From 14ee84a9624c617baba368ba418ce78e0f5287ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:27 +0000
Subject: [PATCH 52/94] fix: chapters without an identifier could not be
 written

---
 mkvmuxer/mkvmuxer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 9983eb6..ea913ad 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2015,7 +2015,8 @@ uint64_t Chapter::WriteAtom(IMkvWriter* writer) const {
   if (!WriteEbmlMasterElement(writer, libwebm::kMkvChapterAtom, payload_size))
     return 0;
 
-  if (!WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
+  // The identifier is optional.
+  if (id_ && !WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
     return 0;
 
   if (!WriteEbmlElement(writer, libwebm::kMkvChapterUID,
-- 
2.43.0


From a7a39de10de249900428af2a55dd32728900193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 53/94] fix: keep the middle bits of the PES PTS within their
 byte

---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index a4169c0..4fdb751 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -59,7 +59,7 @@ void PesOptionalHeader::SetPtsBits(std::int64_t pts_90khz) {
 
   // bottom 7 bits of second PTS chunk.
   pts.bits <<= 8;
-  pts.bits |= (pts2 << 1);
+  pts.bits |= (pts2 << 1) & 0xff;
   // Marker.
   pts.bits |= 1;
 
-- 
2.43.0


From bd5b2b167ee7e93def6f7229ae505e900791bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 54/94] fix: read the top bits of the PES PTS without overflow

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 4f6fe5c..de76162 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -176,7 +176,7 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
       return false;
     }
 
-    header->pts = (poh_buffer[offset] & 0xe) << 29 |
+    header->pts = static_cast<std::uint64_t>(poh_buffer[offset] & 0xe) << 29 |
                   ((ReadUint16(&poh_buffer[offset + 1]) & ~1) << 14) |
                   (ReadUint16(&poh_buffer[offset + 3]) >> 1);
     offset += 5;
-- 
2.43.0


From 5a4e38ca00cf65b51006d02c6fc25484656227b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:48 +0000
Subject: [PATCH 55/94] fix: drop the emulation prevention byte after three or
 more zeros

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index de76162..5b63af0 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -318,7 +318,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
     const std::uint8_t byte = raw_data[i];
     if (byte == 0) {
       ++num_zeros;
-    } else if (byte == 0x3 && num_zeros == 2) {
+    } else if (byte == 0x3 && num_zeros >= 2) {
       skip = true;
       num_zeros = 0;
     } else {
-- 
2.43.0


From 91efa35678a07ec41c6be5ff70083fef9b1db9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 56/94] fix: unescape the first fragment of a fragmented PES
 payload

---
 m2ts/vpxpes_parser.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 5b63af0..babf495 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -261,12 +261,18 @@ bool VpxPesParser::IsPayloadFragmented(const PesHeader& header) const {
 
 bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
                                                std::size_t payload_length) {
+  if (pes_packet_length <= kPesOptionalHeaderSize + kBcmvHeaderSize)
+    return false;
+
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
-  for (std::size_t i = 0; i < first_fragment_length; ++i) {
-    payload_.push_back(pes_file_data_[read_pos_ + i]);
+  std::size_t first_consumed = 0;
+  if (!RemoveStartCodeEmulationPreventionBytes(
+          &pes_file_data_[read_pos_], first_fragment_length, &payload_,
+          &first_consumed)) {
+    return false;
   }
-  read_pos_ += first_fragment_length;
+  read_pos_ += first_consumed;
   parse_state_ = kFindStartCode;
 
   while (payload_.size() < payload_length) {
@@ -285,6 +291,9 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
       return false;
     }
 
+    if (header.packet_length <= kPesOptionalHeaderSize)
+      return false;
+
     const std::size_t fragment_length =
         header.packet_length - kPesOptionalHeaderSize;
     std::size_t consumed = 0;
@@ -295,7 +304,7 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
     }
     read_pos_ += consumed;
   }
-  return true;
+  return payload_.size() == payload_length;
 }
 
 bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
-- 
2.43.0


From 9c333d3106be669a03bd15181ba1849d275e72ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:02 +0000
Subject: [PATCH 57/94] fix: convert the video track by its number, not its
 position

---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 4fdb751..215bc5b 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -400,7 +400,7 @@ bool Webm2Pes::InitWebmParser() {
         fprintf(stderr, "Webm2Pes: Codec must be VP8 or VP9.\n");
         return false;
       }
-      video_track_num_ = track_index + 1;
+      video_track_num_ = static_cast<int>(track->GetNumber());
       break;
     }
   }
-- 
2.43.0


From 5b9c2715c955463c284d6c7bb75cd3df640a9a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:05 +0000
Subject: [PATCH 58/94] fix: report a failure to flush the PES output file

---
 m2ts/webm2pes.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 215bc5b..0ba4891 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -284,7 +284,10 @@ bool Webm2Pes::ConvertToFile() {
     cluster = webm_parser_->GetNext(cluster);
   }
 
-  std::fflush(output_file_.get());
+  if (std::fflush(output_file_.get()) != 0) {
+    std::fprintf(stderr, "Webm2Pes: output flush failed.\n");
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 66559986e413bd7de48aec6a7bca84602e5d4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:15 +0000
Subject: [PATCH 59/94] fix: accept VP9 superframes shorter than their index

---
 common/libwebm_util.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/libwebm_util.cc b/common/libwebm_util.cc
index d158250..749c749 100644
--- a/common/libwebm_util.cc
+++ b/common/libwebm_util.cc
@@ -54,8 +54,7 @@ bool ParseVP9SuperFrameIndex(const std::uint8_t* frame,
     // Consume the super frame index. Note: it's at the end of the super frame.
     const std::size_t length = frame_length - index_length;
 
-    if (length >= index_length &&
-        frame[frame_length - index_length] == marker) {
+    if (frame[length] == marker) {
       // Found a valid superframe index.
       const std::uint8_t* byte = frame + length + 1;
 
@@ -65,7 +64,7 @@ bool ParseVP9SuperFrameIndex(const std::uint8_t* frame,
         std::uint32_t child_frame_length = 0;
 
         for (int j = 0; j < length_field_size; ++j) {
-          child_frame_length |= (*byte++) << (j * 8);
+          child_frame_length |= static_cast<std::uint32_t>(*byte++) << (j * 8);
         }
 
         if (length - frame_offset < child_frame_length) {
-- 
2.43.0


From b64e4d43985e94b9f38f3bf5525a472ea88148d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:28 +0000
Subject: [PATCH 60/94] fix: do not prepend the payload of a failed PES packet
 to the next frame

---
 m2ts/vpxpes_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index babf495..f3704c4 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -353,6 +353,9 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
     return false;
   }
 
+  // Discard what a packet that could not be parsed left behind.
+  payload_.clear();
+
   std::size_t packet_start_pos = read_pos_;
   if (!FindStartCode(read_pos_, &packet_start_pos)) {
     return false;
-- 
2.43.0


From 3bbde70300c163180b6929e1ad6efd37a033e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:31 +0000
Subject: [PATCH 61/94] fix: do not read past the end of the PES data

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index f3704c4..7c2598c 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -319,7 +319,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
       &pes_file_data_[0] + pes_file_data_.size();
   std::size_t i;
   for (i = 0; bytes_copied < bytes_required; ++i) {
-    if (raw_data + i > end_of_input)
+    if (raw_data + i >= end_of_input)
       return false;
 
     bool skip = false;
-- 
2.43.0


From 2acf033a5d987170608b5fd6ae4220910a21e674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:18 +0000
Subject: [PATCH 62/94] fix: do not look for a PES start code beyond the end of
 the data

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 7c2598c..13e763c 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -60,7 +60,7 @@ bool VpxPesParser::Open(const std::string& pes_file) {
 }
 
 bool VpxPesParser::VerifyPacketStartCode() const {
-  if (read_pos_ + 2 > pes_file_data_.size())
+  if (read_pos_ + 2 >= pes_file_data_.size())
     return false;
 
   // PES packets all start with the byte sequence 0x0 0x0 0x1.
-- 
2.43.0


From be5f671749b53a32898827e4a7097c8ce1e5ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:21 +0000
Subject: [PATCH 63/94] fix: size the TS packet buffer before writing to it

---
 m2ts/vpxpes2ts.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 21d4038..e428bbd 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -150,7 +150,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
-  ts_buffer_.reserve(kTsPacketSize);
+  ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
     if (continuity_counter > 0xf)
-- 
2.43.0


From 0333e82d0307a72c8e83355b414b691af3fd894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:24 +0000
Subject: [PATCH 64/94] fix: keep the TS continuity counter running across
 frames

---
 m2ts/vpxpes2ts.cc | 8 ++------
 m2ts/vpxpes2ts.h  | 3 +++
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index e428bbd..93ab64f 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -147,15 +147,11 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   const int kTsPayloadSize = 184;
   const int kTsPacketSize = kTsHeaderSize + kTsPayloadSize;
   int bytes_to_packetize = static_cast<int>(packet_data.size());
-  std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
   ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
-    if (continuity_counter > 0xf)
-      continuity_counter = 0;
-
     // Calculate payload size (need to know if we'll have to pad with an empty
     // adaptation field).
     int payload_size = std::min(bytes_to_packetize, kTsPayloadSize);
@@ -163,7 +159,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     // Write the TS header.
     const TsHeader header(
         bytes_to_packetize == static_cast<int>(packet_data.size()),
-        payload_size != kTsPayloadSize, continuity_counter);
+        payload_size != kTsPayloadSize, continuity_counter_);
     header.Write(&ts_buffer_);
     int write_pos = kTsHeaderSize;
 
@@ -195,7 +191,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     }
 
     bytes_to_packetize -= payload_size;
-    continuity_counter++;
+    continuity_counter_ = (continuity_counter_ + 1) & 0xf;
 
     if (write_pos != kTsPacketSize) {
       fprintf(stderr, "VpxPes2Ts: Invalid packet length.\n");
diff --git a/m2ts/vpxpes2ts.h b/m2ts/vpxpes2ts.h
index 2609a1f..7e1ff38 100644
--- a/m2ts/vpxpes2ts.h
+++ b/m2ts/vpxpes2ts.h
@@ -38,6 +38,9 @@ class VpxPes2Ts : public PacketReceiverInterface {
   FilePtr output_file_;
   std::unique_ptr<Webm2Pes> pes_converter_;
   PacketDataBuffer ts_buffer_;
+
+  // Value of the 4 bit continuity counter for the next TS packet.
+  std::uint8_t continuity_counter_ = 0;
 };
 
 }  // namespace libwebm
-- 
2.43.0


From fde126003d4f677e3db2182a904281758f71d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:50 +0000
Subject: [PATCH 65/94] fix: report a failure to flush the TS output file

---
 m2ts/vpxpes2ts.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 93ab64f..a7dd3cf 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -139,7 +139,14 @@ bool VpxPes2Ts::ConvertToFile() {
     std::fprintf(stderr, "VpxPes2Ts: Out of memory.\n");
     return false;
   }
-  return pes_converter_->ConvertToPacketReceiver();
+  if (pes_converter_->ConvertToPacketReceiver() != true)
+    return false;
+
+  if (std::fflush(output_file_.get()) != 0) {
+    std::fprintf(stderr, "VpxPes2Ts: output flush failed.\n");
+    return false;
+  }
+  return true;
 }
 
 bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
-- 
2.43.0


From 502737b6720c8c03cb8db3de98ba5d058ae9211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:18 +0000
Subject: [PATCH 66/94] fix: skip the sign bit of VP9 quantizer deltas

---
 common/vp9_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index c017d7f..6edfee6 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -259,7 +259,7 @@ void Vp9HeaderParser::ParseTileInfo() {
 
 void Vp9HeaderParser::SkipDeltaQ() {
   if (ReadBit())
-    VpxReadLiteral(4);
+    VpxReadLiteral(5);  // Consume delta_q + sign
 }
 
 int Vp9HeaderParser::AlignPowerOfTwo(int value, int n) {
-- 
2.43.0


From 11b0841bfb27c3e9432f4a5305634aeefbd4a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:32 +0000
Subject: [PATCH 67/94] fix: initialise the display size of the VP9 header
 parser

---
 common/vp9_header_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index 3e57514..b9458ab 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -47,6 +47,8 @@ class Vp9HeaderParser {
         refresh_frame_flags_(0),
         width_(0),
         height_(0),
+        display_width_(0),
+        display_height_(0),
         row_tiles_(0),
         column_tiles_(0),
         frame_parallel_mode_(0) {}
-- 
2.43.0


From ee87d76abae8e46d26f413274986ab7086e91e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:10 +0000
Subject: [PATCH 68/94] fix: compute the VP9 luma picture size in 64 bits

---
 common/vp9_level_stats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index 96a4bcc..b06bbe6 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -41,7 +41,7 @@ void Vp9LevelStats::AddFrame(const Vp9HeaderParser& parser, int64_t time_ns) {
 
   const int width = parser.width();
   const int height = parser.height();
-  const int64_t luma_picture_size = width * height;
+  const int64_t luma_picture_size = static_cast<int64_t>(width) * height;
   const int64_t luma_picture_breadth = (width > height) ? width : height;
   if (luma_picture_size > max_luma_picture_size_)
     max_luma_picture_size_ = luma_picture_size;
-- 
2.43.0


From 483da8fad0e7dceb86b600dc2274fb08c391ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:31 +0000
Subject: [PATCH 69/94] fix: refuse an invalid VP9 level after a valid one

---
 common/hdr_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/hdr_util.cc b/common/hdr_util.cc
index 7381958..c82e4c1 100644
--- a/common/hdr_util.cc
+++ b/common/hdr_util.cc
@@ -179,6 +179,7 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
       const int levels[kNumLevels] = {10, 11, 20, 21, 30, 31, 40,
                                       41, 50, 51, 52, 60, 61, 62};
 
+      bool valid_level = false;
       for (int i = 0; i < kNumLevels; ++i) {
         if (priv_level == levels[i]) {
           if (features->level != Vp9CodecFeatures::kValueNotPresent &&
@@ -186,10 +187,11 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
             return false;
           }
           features->level = priv_level;
+          valid_level = true;
           break;
         }
       }
-      if (features->level == Vp9CodecFeatures::kValueNotPresent)
+      if (!valid_level)
         return false;
     } else if (id_byte == kVp9BitDepthId) {
       const int priv_profile = static_cast<int>(private_data[offset++]);
-- 
2.43.0


From 87a44161dcb86649e21f22c228d058129a0a0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:59 +0000
Subject: [PATCH 70/94] fix: no VP9 level for a stream beyond the highest level

---
 common/vp9_level_stats.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index b06bbe6..3851e95 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -206,6 +206,16 @@ Vp9Level Vp9LevelStats::GetLevel() const {
     }
   }
 
+  // A stream that exceeds a limit of the highest level has no level.
+  const Vp9LevelRow& highest = Vp9LevelTable[kNumVp9Levels - 1];
+  if (max_luma_sample_rate > highest.max_luma_sample_rate * grace_multiplier ||
+      max_luma_picture_size > highest.max_luma_picture_size ||
+      max_luma_picture_breadth > highest.max_luma_picture_breadth ||
+      average_bitrate > highest.average_bitrate ||
+      max_column_tiles > highest.max_tiles) {
+    max_level = LEVEL_UNKNOWN;
+  }
+
   // Check if the current level meets the minimum altref distance requirement.
   // If not, set to unknown level as we can't move up a level as the minimum
   // altref distance get farther apart and we can't move down a level as we are
-- 
2.43.0


From 36352f490bce0c33dbf7ddba655e4c8b9d9a9783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:25 +0000
Subject: [PATCH 71/94] fix: swap the middle bytes of 32-bit values in the
 endian helpers

---
 common/webm_endian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/webm_endian.cc b/common/webm_endian.cc
index b1ef7ca..6cf6afd 100644
--- a/common/webm_endian.cc
+++ b/common/webm_endian.cc
@@ -31,8 +31,8 @@ uint32_t swap32_check_little_endian(uint32_t value) {
   if (check.c[0] != 0x67)
     return 0;
 
-  return value << 24 | ((value << 8) & 0x0000FF00U) |
-         ((value >> 8) & 0x00FF0000U) | value >> 24;
+  return value << 24 | ((value << 8) & 0x00FF0000U) |
+         ((value >> 8) & 0x0000FF00U) | value >> 24;
 }
 
 // Swaps unsigned 64 bit values to big endian if needed. Returns |value|
-- 
2.43.0


From 666468f89cd8720b81860ced52c4aa27186ca17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:48 +0000
Subject: [PATCH 72/94] fix: FileReader::Skip does not claim to skip data past
 the end of the file

---
 webm_parser/src/file_reader.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index a2a397b..de2e9d8 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -90,13 +90,21 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
   if (num_to_skip < static_cast<unsigned long>(seek_offset)) {  // NOLINT
     seek_offset = static_cast<long>(num_to_skip);  // NOLINT
   }
-  if (!FSEEK_(file_.get(), seek_offset, SEEK_CUR)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<unsigned long>(seek_offset) == num_to_skip) {  // NOLINT
-      return Status(Status::kOkCompleted);
-    } else {
-      return Status(Status::kOkPartial);
+  // Seeking past the end of the file succeeds, so only seek to the last byte
+  // that is to be skipped, and read that byte to make sure that it exists.
+  if (!FSEEK_(file_.get(), seek_offset - 1, SEEK_CUR)) {
+    if (std::fgetc(file_.get()) != EOF) {
+      *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
+      position_ += static_cast<std::uint64_t>(seek_offset);
+      if (static_cast<unsigned long>(seek_offset) == num_to_skip) {  // NOLINT
+        return Status(Status::kOkCompleted);
+      } else {
+        return Status(Status::kOkPartial);
+      }
+    }
+    // There is less data than that; skip what is left by reading it.
+    if (FSEEK_(file_.get(), 1 - seek_offset, SEEK_CUR)) {
+      return Status(Status::kEndOfFile);
     }
   }
   std::clearerr(file_.get());
-- 
2.43.0


From 127553c7b5aaff9acb07b5385c34c4959a81c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:54 +0000
Subject: [PATCH 73/94] fix: IstreamReader::Skip does not claim to skip data
 past the end of a file

---
 webm_parser/src/istream_reader.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/webm_parser/src/istream_reader.cc b/webm_parser/src/istream_reader.cc
index 6993fc0..31c972a 100644
--- a/webm_parser/src/istream_reader.cc
+++ b/webm_parser/src/istream_reader.cc
@@ -89,13 +89,23 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
   } else {
     seek_offset = static_cast<std::streamsize>(num_to_skip);
   }
-  if (istream_->seekg(seek_offset, std::ios_base::cur)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<std::uint64_t>(seek_offset) == num_to_skip) {
-      return Status(Status::kOkCompleted);
-    } else {
-      return Status(Status::kOkPartial);
+  // Some streams (like files) can be positioned past their end, so only seek to
+  // the last byte that is to be skipped, and read that byte to make sure that it
+  // exists.
+  if (istream_->seekg(seek_offset - 1, std::ios_base::cur)) {
+    if (istream_->get() != std::istream::traits_type::eof()) {
+      *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
+      position_ += static_cast<std::uint64_t>(seek_offset);
+      if (static_cast<std::uint64_t>(seek_offset) == num_to_skip) {
+        return Status(Status::kOkCompleted);
+      } else {
+        return Status(Status::kOkPartial);
+      }
+    }
+    // There is less data than that; skip what is left by reading it.
+    istream_->clear();
+    if (!istream_->seekg(1 - seek_offset, std::ios_base::cur)) {
+      return Status(Status::kEndOfFile);
     }
   }
   istream_->clear();
-- 
2.43.0


From d4b90527772f7c390a53c5c963e9084f9568459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:00 +0000
Subject: [PATCH 74/94] fix: FileReader::Seek fails on an empty reader instead
 of crashing

---
 webm_parser/src/file_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index de2e9d8..a52de7d 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -138,6 +138,9 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
 }
 
 Status FileReader::Seek(std::uint64_t seek_position) {
+  if (file_ == nullptr) {
+    return Status(Status::kSeekFailed);
+  }
   if (FSEEK_(file_.get(), seek_position, SEEK_SET)) {
     return Status(Status::kSeekFailed);
   }
-- 
2.43.0


From 8574ce3b97a0454ff17dfc6e8672d07bc285c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:53 +0000
Subject: [PATCH 75/94] fix: mkvmuxer_sample keeps the frames of several tracks
 of one type apart

---
 mkvmuxer_sample.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index 9be2ff9..ceba52e 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -11,6 +11,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <list>
+#include <map>
 #include <memory>
 #include <new>
 #include <string>
@@ -419,6 +420,7 @@ int main(int argc, char* argv[]) {
   unsigned long i = 0;
   uint64_t vid_track = 0;  // no track added
   uint64_t aud_track = 0;  // no track added
+  std::map<long, uint64_t> muxer_tracks;  // By track number of the input.
 
   using mkvparser::Track;
 
@@ -452,6 +454,7 @@ int main(int argc, char* argv[]) {
         printf("\n Could not add video track.\n");
         return EXIT_FAILURE;
       }
+      muxer_tracks[parser_track->GetNumber()] = vid_track;
 
       mkvmuxer::VideoTrack* const video = static_cast<mkvmuxer::VideoTrack*>(
           muxer_segment.GetTrackByNumber(vid_track));
@@ -617,6 +620,7 @@ int main(int argc, char* argv[]) {
         printf("\n Could not add audio track.\n");
         return EXIT_FAILURE;
       }
+      muxer_tracks[parser_track->GetNumber()] = aud_track;
 
       mkvmuxer::AudioTrack* const audio = static_cast<mkvmuxer::AudioTrack*>(
           muxer_segment.GetTrackByNumber(aud_track));
@@ -735,8 +739,8 @@ int main(int argc, char* argv[]) {
           mkvmuxer::Frame muxer_frame;
           if (!muxer_frame.Init(data, frame.len))
             return EXIT_FAILURE;
-          muxer_frame.set_track_number(track_type == Track::kAudio ? aud_track
-                                                                   : vid_track);
+          muxer_frame.set_track_number(
+              muxer_tracks[parser_track->GetNumber()]);
           if (block->GetDiscardPadding())
             muxer_frame.set_discard_padding(block->GetDiscardPadding());
           muxer_frame.set_timestamp(time_ns);
-- 
2.43.0


From a5605005b05209254d06383bc85438e856f2b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:00 +0000
Subject: [PATCH 76/94] fix: a maximum luminance is valid without a minimum
 luminance

---
 mkvmuxer/mkvmuxer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index ea913ad..acfcf8a 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1002,7 +1002,8 @@ bool MasteringMetadata::Valid() const {
   }
   if (luminance_max_ != kValueNotPresent) {
     if (luminance_max_ < kMinLuminance || luminance_max_ > kMaxLuminanceMax ||
-        luminance_max_ < luminance_min_) {
+        (luminance_min_ != kValueNotPresent &&
+         luminance_max_ < luminance_min_)) {
       return false;
     }
   }
-- 
2.43.0


From f027ffb93bf95cba45fec761cbfe4c6c3f547103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 77/94] fix: mkvmuxer_sample skips tags without a name or a
 string

---
 mkvmuxer_sample.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index ceba52e..1a0658e 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -409,6 +409,9 @@ int main(int argc, char* argv[]) {
       for (int j = 0; j < tag->GetSimpleTagCount(); j++) {
         const mkvparser::Tags::SimpleTag* const simple_tag =
             tag->GetSimpleTag(j);
+        // The parser does not report binary tags, and the name may be missing.
+        if (!simple_tag->GetTagName() || !simple_tag->GetTagString())
+          continue;
         muxer_tag->add_simple_tag(simple_tag->GetTagName(),
                                   simple_tag->GetTagString());
       }
-- 
2.43.0


From 5de96b20a315dae305d383f713fddc0a252f14a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:06 +0000
Subject: [PATCH 78/94] fix: vttdemux refuses a cue whose time cannot be
 represented

---
 vttdemux.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vttdemux.cc b/vttdemux.cc
index 186783b..0ad6075 100644
--- a/vttdemux.cc
+++ b/vttdemux.cc
@@ -9,6 +9,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <map>
 #include <memory>
 #include <string>
@@ -857,6 +858,9 @@ bool vttdemux::WriteCueTimings(FILE* f, FrameParser* parser) {
 
   const mkvtime_t start_ns = block->GetTime(cluster);
 
+  if (start_ns < 0)
+    return false;
+
   if (!WriteCueTime(f, start_ns))
     return false;
 
@@ -879,6 +883,11 @@ bool vttdemux::WriteCueTimings(FILE* f, FrameParser* parser) {
   if (timecode_scale <= 0)
     return false;
 
+  const mkvtime_t max_ns = std::numeric_limits<mkvtime_t>::max();
+
+  if (duration_timecode > (max_ns - start_ns) / timecode_scale)
+    return false;
+
   const mkvtime_t duration_ns = duration_timecode * timecode_scale;
   const mkvtime_t stop_ns = start_ns + duration_ns;
 
-- 
2.43.0


From 193d25e41d9ad0771ed6d4ccf36d64f5fd41e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 79/94] fix: mkvmuxer_sample keeps the sampling rate and the
 channel count of audio tracks

---
 mkvmuxer_sample.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index 1a0658e..ea8f5a0 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -616,9 +616,7 @@ int main(int argc, char* argv[]) {
       const double sample_rate = pAudioTrack->GetSamplingRate();
 
       // Add the audio track to the muxer
-      aud_track = muxer_segment.AddAudioTrack(static_cast<int>(sample_rate),
-                                              static_cast<int>(channels),
-                                              audio_track_number);
+      aud_track = muxer_segment.AddAudioTrack(0, 0, audio_track_number);
       if (!aud_track) {
         printf("\n Could not add audio track.\n");
         return EXIT_FAILURE;
@@ -632,6 +630,9 @@ int main(int argc, char* argv[]) {
         return EXIT_FAILURE;
       }
 
+      audio->set_sample_rate(sample_rate);
+      audio->set_channels(channels);
+
       if (track_name)
         audio->set_name(track_name);
 
-- 
2.43.0


From 3ff8e051fcbac23b63cbc40a13c20f2f3877cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:21 +0000
Subject: [PATCH 80/94] fix: webm_info -all enables the SeekHead output

---
 webm_info.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/webm_info.cc b/webm_info.cc
index e0ac153..4a83be6 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -93,6 +93,7 @@ void Options::SetAll(bool value) {
   output_ebml_header = value;
   output_seconds = value;
   output_segment = value;
+  output_seekhead = value;
   output_segment_info = value;
   output_tracks = value;
   output_clusters = value;
-- 
2.43.0


From a0307c9e28170d8f705fcb6c10fa597fce43586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:25 +0000
Subject: [PATCH 81/94] fix: webm_info prints two digits per byte of signatures
 and key ids

---
 webm_info.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index 4a83be6..b5a486b 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -449,7 +449,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
           fprintf(o, "%sContentSignature     : 0x",
                   indent->indent_str().c_str());
           for (int k = 0; k < encryption->signature_len; ++k) {
-            fprintf(o, "%x", encryption->signature[k]);
+            fprintf(o, "%02x", encryption->signature[k]);
           }
           fprintf(o, "\n");
         }
@@ -458,7 +458,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
           fprintf(o, "%sContentSigKeyID      : 0x",
                   indent->indent_str().c_str());
           for (int k = 0; k < encryption->sig_key_id_len; ++k) {
-            fprintf(o, "%x", encryption->sig_key_id[k]);
+            fprintf(o, "%02x", encryption->sig_key_id[k]);
           }
           fprintf(o, "\n");
         }
-- 
2.43.0


From 6f9163e1b4000c20f6dd2c9ea2054680d490adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 82/94] fix: webm_info prints names and titles that are not
 ASCII

---
 webm_info.cc | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index b5a486b..046a951 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -32,7 +32,6 @@ using libwebm::kNanosecondsPerSecond;
 using libwebm::kNanosecondsPerSecondi;
 using mkvparser::ContentEncoding;
 using std::string;
-using std::wstring;
 
 const char VERSION_STRING[] = "1.0.4.5";
 
@@ -164,19 +163,6 @@ void Usage() {
   printf("\nOutput options may be negated by prefixing 'no'.\n");
 }
 
-// TODO(fgalligan): Add support for non-ascii.
-wstring UTF8ToWideString(const char* str) {
-  wstring wstr;
-
-  if (str == NULL)
-    return wstr;
-
-  string temp_str(str, strlen(str));
-  wstr.assign(temp_str.begin(), temp_str.end());
-
-  return wstr;
-}
-
 string ToString(const char* str) { return string((str == NULL) ? "" : str); }
 
 void OutputEBMLHeader(const mkvparser::EBMLHeader& ebml, FILE* o,
@@ -281,11 +267,9 @@ bool OutputSegmentInfo(const mkvparser::Segment& segment,
 
   const int64_t timecode_scale = segment_info->GetTimeCodeScale();
   const int64_t duration_ns = segment_info->GetDuration();
-  const wstring title = UTF8ToWideString(segment_info->GetTitleAsUTF8());
-  const wstring muxing_app =
-      UTF8ToWideString(segment_info->GetMuxingAppAsUTF8());
-  const wstring writing_app =
-      UTF8ToWideString(segment_info->GetWritingAppAsUTF8());
+  const string title = ToString(segment_info->GetTitleAsUTF8());
+  const string muxing_app = ToString(segment_info->GetMuxingAppAsUTF8());
+  const string writing_app = ToString(segment_info->GetWritingAppAsUTF8());
 
   fprintf(o, "%sSegmentInfo:", indent->indent_str().c_str());
   if (options.output_offset)
@@ -305,13 +289,13 @@ bool OutputSegmentInfo(const mkvparser::Segment& segment,
             duration_ns);
 
   if (!title.empty())
-    fprintf(o, "%sTitle         : %ls\n", indent->indent_str().c_str(),
+    fprintf(o, "%sTitle         : %s\n", indent->indent_str().c_str(),
             title.c_str());
   if (!muxing_app.empty())
-    fprintf(o, "%sMuxingApp     : %ls\n", indent->indent_str().c_str(),
+    fprintf(o, "%sMuxingApp     : %s\n", indent->indent_str().c_str(),
             muxing_app.c_str());
   if (!writing_app.empty())
-    fprintf(o, "%sWritingApp    : %ls\n", indent->indent_str().c_str(),
+    fprintf(o, "%sWritingApp    : %s\n", indent->indent_str().c_str(),
             writing_app.c_str());
   indent->Adjust(libwebm::kDecreaseIndent);
   return true;
@@ -349,7 +333,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
 
     const int64_t track_type = track->GetType();
     const int64_t track_number = track->GetNumber();
-    const wstring track_name = UTF8ToWideString(track->GetNameAsUTF8());
+    const string track_name = ToString(track->GetNameAsUTF8());
 
     indent->Adjust(libwebm::kIncreaseIndent);
     fprintf(o, "%sTrackType   : %" PRId64 "\n", indent->indent_str().c_str(),
@@ -357,7 +341,7 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
     fprintf(o, "%sTrackNumber : %" PRId64 "\n", indent->indent_str().c_str(),
             track_number);
     if (!track_name.empty())
-      fprintf(o, "%sName        : %ls\n", indent->indent_str().c_str(),
+      fprintf(o, "%sName        : %s\n", indent->indent_str().c_str(),
               track_name.c_str());
 
     const char* const codec_id = track->GetCodecId();
@@ -365,9 +349,9 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
       fprintf(o, "%sCodecID     : %s\n", indent->indent_str().c_str(),
               codec_id);
 
-    const wstring codec_name = UTF8ToWideString(track->GetCodecNameAsUTF8());
+    const string codec_name = ToString(track->GetCodecNameAsUTF8());
     if (!codec_name.empty())
-      fprintf(o, "%sCodecName   : %ls\n", indent->indent_str().c_str(),
+      fprintf(o, "%sCodecName   : %s\n", indent->indent_str().c_str(),
               codec_name.c_str());
 
     size_t private_size;
-- 
2.43.0


From e2d15c0724bdc0ee60e1b6a48cc3678e4b1160fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:57 +0000
Subject: [PATCH 83/94] fix: webm_info -codec_info knows encrypted frames
 without -encrypted_info

---
 webm_info.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index 046a951..e0ea595 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -919,26 +919,26 @@ bool OutputCluster(const mkvparser::Cluster& cluster,
         const uint8_t kSubSampleBit = 0x2;
         const int kSignalByteSize = 1;
         bool encrypted_stream = false;
-        if (options.output_encrypted_info) {
-          if (track->GetContentEncodingCount() > 0) {
-            // Only check the first content encoding.
-            const ContentEncoding* const encoding =
-                track->GetContentEncodingByIndex(0);
-            if (encoding) {
-              if (encoding->GetEncryptionCount() > 0) {
-                const ContentEncoding::ContentEncryption* const encryption =
-                    encoding->GetEncryptionByIndex(0);
-                if (encryption) {
-                  const ContentEncoding::ContentEncAESSettings& aes =
-                      encryption->aes_settings;
-                  if (aes.cipher_mode == 1) {
-                    encrypted_stream = true;
-                  }
+        if (track->GetContentEncodingCount() > 0) {
+          // Only check the first content encoding.
+          const ContentEncoding* const encoding =
+              track->GetContentEncodingByIndex(0);
+          if (encoding) {
+            if (encoding->GetEncryptionCount() > 0) {
+              const ContentEncoding::ContentEncryption* const encryption =
+                  encoding->GetEncryptionByIndex(0);
+              if (encryption) {
+                const ContentEncoding::ContentEncAESSettings& aes =
+                    encryption->aes_settings;
+                if (aes.cipher_mode == 1) {
+                  encrypted_stream = true;
                 }
               }
             }
           }
+        }
 
+        if (options.output_encrypted_info) {
           if (encrypted_stream) {
             const mkvparser::Block::Frame& frame = block->GetFrame(0);
             if (frame.len > static_cast<int>(vector_data.size())) {
-- 
2.43.0


From a771ecff0f6473b72b1e41be90d79496d9248b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:02 +0000
Subject: [PATCH 84/94] fix: webm_info prints no IV for a frame too short to
 hold one

---
 webm_info.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/webm_info.cc b/webm_info.cc
index e0ea595..9d0971b 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -956,7 +956,9 @@ bool OutputCluster(const mkvparser::Cluster& cluster,
             fprintf(o, " enc: %d", encrypted_frame ? 1 : 0);
             fprintf(o, " sub: %d", sub_sample_encrypt ? 1 : 0);
 
-            if (encrypted_frame) {
+            if (encrypted_frame &&
+                frame.len >=
+                    kSignalByteSize + static_cast<int>(sizeof(uint64_t))) {
               uint64_t iv;
               memcpy(&iv, data + kSignalByteSize, sizeof(iv));
               fprintf(o, " iv: %" PRIx64, iv);
-- 
2.43.0


From bff72fc3b1ccca53e4958e2c36123f23d35efbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:20 +0000
Subject: [PATCH 85/94] fix: mkvparser_sample labels the roll of a projection

---
 mkvparser_sample.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser_sample.cc b/mkvparser_sample.cc
index f285c3e..70a531b 100644
--- a/mkvparser_sample.cc
+++ b/mkvparser_sample.cc
@@ -315,7 +315,7 @@ int main(int argc, char* argv[]) {
         if (projection->pose_pitch != mkvparser::Projection::kValueNotPresent)
           printf("\t\t\tProjectionPosePitch: %f\n", projection->pose_pitch);
         if (projection->pose_roll != mkvparser::Projection::kValueNotPresent)
-          printf("\t\t\tProjectionPosePitch: %f\n", projection->pose_roll);
+          printf("\t\t\tProjectionPoseRoll: %f\n", projection->pose_roll);
       }
     }
 
-- 
2.43.0


From d24f194c6448e9621bad7e176e0fd815b1a91ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:33 +0000
Subject: [PATCH 86/94] fix: mkvparser_sample prints names that are not ASCII

---
 mkvparser_sample.cc | 68 ++++++++++-----------------------------------
 1 file changed, 15 insertions(+), 53 deletions(-)

diff --git a/mkvparser_sample.cc b/mkvparser_sample.cc
index 70a531b..2067d0a 100644
--- a/mkvparser_sample.cc
+++ b/mkvparser_sample.cc
@@ -17,28 +17,6 @@
 #include "mkvparser/mkvreader.h"
 
 namespace {
-const wchar_t* utf8towcs(const char* str) {
-  if (str == NULL)
-    return NULL;
-
-  // TODO: this probably requires that the locale be
-  // configured somehow:
-
-  const size_t size = mbstowcs(NULL, str, 0);
-
-  if (size == 0 || size == static_cast<size_t>(-1))
-    return NULL;
-
-  wchar_t* const val = new (std::nothrow) wchar_t[size + 1];
-  if (val == NULL)
-    return NULL;
-
-  mbstowcs(val, str, size);
-  val[size] = L'\0';
-
-  return val;
-}
-
 bool InputHasCues(const mkvparser::Segment* const segment) {
   const mkvparser::Cues* const cues = segment->GetCues();
   if (cues == NULL)
@@ -125,14 +103,9 @@ int main(int argc, char* argv[]) {
   const long long timeCodeScale = pSegmentInfo->GetTimeCodeScale();
   const long long duration_ns = pSegmentInfo->GetDuration();
 
-  const char* const pTitle_ = pSegmentInfo->GetTitleAsUTF8();
-  const wchar_t* const pTitle = utf8towcs(pTitle_);
-
-  const char* const pMuxingApp_ = pSegmentInfo->GetMuxingAppAsUTF8();
-  const wchar_t* const pMuxingApp = utf8towcs(pMuxingApp_);
-
-  const char* const pWritingApp_ = pSegmentInfo->GetWritingAppAsUTF8();
-  const wchar_t* const pWritingApp = utf8towcs(pWritingApp_);
+  const char* const pTitle = pSegmentInfo->GetTitleAsUTF8();
+  const char* const pMuxingApp = pSegmentInfo->GetMuxingAppAsUTF8();
+  const char* const pWritingApp = pSegmentInfo->GetWritingAppAsUTF8();
 
   printf("\n");
   printf("\t\t\t   Segment Info\n");
@@ -144,24 +117,18 @@ int main(int argc, char* argv[]) {
 
   if (pTitle == NULL)
     printf("\t\tTrack Name\t\t: NULL\n");
-  else {
-    printf("\t\tTrack Name\t\t: %ls\n", pTitle);
-    delete[] pTitle;
-  }
+  else
+    printf("\t\tTrack Name\t\t: %s\n", pTitle);
 
   if (pMuxingApp == NULL)
     printf("\t\tMuxing App\t\t: NULL\n");
-  else {
-    printf("\t\tMuxing App\t\t: %ls\n", pMuxingApp);
-    delete[] pMuxingApp;
-  }
+  else
+    printf("\t\tMuxing App\t\t: %s\n", pMuxingApp);
 
   if (pWritingApp == NULL)
     printf("\t\tWriting App\t\t: NULL\n");
-  else {
-    printf("\t\tWriting App\t\t: %ls\n", pWritingApp);
-    delete[] pWritingApp;
-  }
+  else
+    printf("\t\tWriting App\t\t: %s\n", pWritingApp);
 
   // pos of segment payload
   printf("\t\tPosition(Segment)\t: %lld\n", pSegment->m_start);
@@ -186,7 +153,7 @@ int main(int argc, char* argv[]) {
     const long trackType = pTrack->GetType();
     const long trackNumber = pTrack->GetNumber();
     const unsigned long long trackUid = pTrack->GetUid();
-    const wchar_t* const pTrackName = utf8towcs(pTrack->GetNameAsUTF8());
+    const char* const pTrackName = pTrack->GetNameAsUTF8();
 
     printf("\t\tTrack Type\t\t: %ld\n", trackType);
     printf("\t\tTrack Number\t\t: %ld\n", trackNumber);
@@ -194,10 +161,8 @@ int main(int argc, char* argv[]) {
 
     if (pTrackName == NULL)
       printf("\t\tTrack Name\t\t: NULL\n");
-    else {
-      printf("\t\tTrack Name\t\t: %ls \n", pTrackName);
-      delete[] pTrackName;
-    }
+    else
+      printf("\t\tTrack Name\t\t: %s \n", pTrackName);
 
     const char* const pCodecId = pTrack->GetCodecId();
 
@@ -212,15 +177,12 @@ int main(int argc, char* argv[]) {
              static_cast<unsigned int>(codec_private_size));
     }
 
-    const char* const pCodecName_ = pTrack->GetCodecNameAsUTF8();
-    const wchar_t* const pCodecName = utf8towcs(pCodecName_);
+    const char* const pCodecName = pTrack->GetCodecNameAsUTF8();
 
     if (pCodecName == NULL)
       printf("\t\tCodec Name\t\t: NULL\n");
-    else {
-      printf("\t\tCodec Name\t\t: %ls\n", pCodecName);
-      delete[] pCodecName;
-    }
+    else
+      printf("\t\tCodec Name\t\t: %s\n", pCodecName);
 
     if (trackType == mkvparser::Track::kVideo) {
       const mkvparser::VideoTrack* const pVideoTrack =
-- 
2.43.0


From d2283be5759ff37692244b4aaf756d9b06e2aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:36 +0000
Subject: [PATCH 87/94] fix: mkvparser_sample prints track UIDs as unsigned
 numbers

---
 mkvparser_sample.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser_sample.cc b/mkvparser_sample.cc
index 2067d0a..9f04a4e 100644
--- a/mkvparser_sample.cc
+++ b/mkvparser_sample.cc
@@ -157,7 +157,7 @@ int main(int argc, char* argv[]) {
 
     printf("\t\tTrack Type\t\t: %ld\n", trackType);
     printf("\t\tTrack Number\t\t: %ld\n", trackNumber);
-    printf("\t\tTrack Uid\t\t: %lld\n", trackUid);
+    printf("\t\tTrack Uid\t\t: %llu\n", trackUid);
 
     if (pTrackName == NULL)
       printf("\t\tTrack Name\t\t: NULL\n");
-- 
2.43.0


From d255b4a54b936cfad07aadec037c2d90e07070ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:03 +0000
Subject: [PATCH 88/94] fix: webm_info reports an unknown Segment size as
 unknown

---
 webm_info.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/webm_info.cc b/webm_info.cc
index 9d0971b..5da12c3 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -193,7 +193,9 @@ void OutputSegment(const mkvparser::Segment& segment, const Options& options,
     fprintf(o, "  @: %lld", segment.m_element_start);
   if (options.output_size)
     fprintf(o, "  size: %lld",
-            segment.m_size + segment.m_start - segment.m_element_start);
+            segment.m_size < 0
+                ? segment.m_size
+                : segment.m_size + segment.m_start - segment.m_element_start);
   fprintf(o, "\n");
 }
 
-- 
2.43.0


From 62af711ee8f18149db1e0614cc2a4462eb59647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 89/94] fix: webm_info counts clusters of unknown size in
 -clusters_size

---
 webm_info.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/webm_info.cc b/webm_info.cc
index 5da12c3..c208d67 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -838,6 +838,15 @@ bool OutputCluster(const mkvparser::Cluster& cluster,
       return false;
     }
 
+    // The size of a Cluster of unknown size is known once all of it is loaded.
+    if (cluster.GetElementSize() < 0) {
+      status = cluster.GetLast(block_entry);
+      if (status) {
+        fprintf(stderr, "Could not get last Block of Cluster.\n");
+        return false;
+      }
+    }
+
     *clusters_size += cluster.GetElementSize();
   }
 
-- 
2.43.0


From 3e64b908b88dc3159cc8f0f32dbfaf80d2297fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:33 +0000
Subject: [PATCH 90/94] fix: webm_info omits VP9 features absent from the
 CodecPrivate

---
 webm_info.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index c208d67..192ed4b 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -374,16 +374,20 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
             fprintf(stderr, "Error parsing VpxCodecPrivate.\n");
             return false;
           }
-          if (features.profile != -1)
+          if (features.profile !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 profile            : %d\n",
                     indent->indent_str().c_str(), features.profile);
-          if (features.level != -1)
+          if (features.level !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 level              : %d\n",
                     indent->indent_str().c_str(), features.level);
-          if (features.bit_depth != -1)
+          if (features.bit_depth !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 bit_depth          : %d\n",
                     indent->indent_str().c_str(), features.bit_depth);
-          if (features.chroma_subsampling != -1)
+          if (features.chroma_subsampling !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 chroma subsampling : %d\n",
                     indent->indent_str().c_str(), features.chroma_subsampling);
         }
-- 
2.43.0


From c5df593ce9a4fdb67240faaacd333d35ceb50722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:12 +0000
Subject: [PATCH 91/94] fix: webm_info accepts VP9 key frames of profile 3

---
 webm_info.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/webm_info.cc b/webm_info.cc
index 192ed4b..a9e195a 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -720,7 +720,9 @@ void PrintVP9Info(const uint8_t* data, int size, FILE* o, int64_t time_ns,
     const int column_tiles = parser->column_tiles();
     const int frame_parallel_mode = parser->frame_parallel_mode();
 
-    if (key &&
+    // A reserved bit moves the sync code off the byte boundary in profile 3;
+    // the parser has checked it there.
+    if (key && version < 3 &&
         !(size >= 4 && data[1] == 0x49 && data[2] == 0x83 && data[3] == 0x42)) {
       fprintf(o, " invalid VP9 signature");
       return;
-- 
2.43.0


From 3cf58223f20e0c6c5967128b5a1d68e1012ea802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:19 +0000
Subject: [PATCH 92/94] fix: do not assign track numbers above 126

---
 mkvmuxer/mkvmuxer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index acfcf8a..7f03fee 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1805,6 +1805,11 @@ bool Tracks::AddTrack(Track* track, int32_t number) {
         }
       }
     } while (!exit);
+
+    if (track_num > 0x7E) {
+      track_entries_ = track_entries;
+      return false;
+    }
   }
   track->set_number(track_num);
 
-- 
2.43.0


From 83d8b23b0a3cd72e8b301ca27eeafb3efd4088de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:46 +0000
Subject: [PATCH 93/94] fix: estimate the duration by track number

---
 mkvmuxer/mkvmuxer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 7f03fee..74590e9 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3281,8 +3281,8 @@ bool Segment::Finalize() {
       duration = duration_;
     } else {
       if (last_block_duration_ == 0 && estimate_file_duration_) {
-        const int num_tracks = static_cast<int>(tracks_.track_entries_size());
-        for (int i = 0; i < num_tracks; ++i) {
+        // These are indexed by the track number less one.
+        for (uint32_t i = 0; i < kMaxTrackNumber; ++i) {
           if (track_frames_written_[i] < 2)
             continue;
 
-- 
2.43.0


From dc1a874678228bebe99c0dd0be55fc18b02e1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 94/94] fix: name the projection elements in the demo as
 elsewhere

---
 webm_parser/demo/demo.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/webm_parser/demo/demo.cc b/webm_parser/demo/demo.cc
index 47ecbb0..ebea364 100644
--- a/webm_parser/demo/demo.cc
+++ b/webm_parser/demo/demo.cc
@@ -220,13 +220,13 @@ std::ostream& operator<<(std::ostream& os, Id id) {
     case Id::kProjection:
       return os << "Projection";
     case Id::kProjectionType:
-      return os << "kProjectionType";
+      return os << "ProjectionType";
     case Id::kProjectionPrivate:
-      return os << "kProjectionPrivate";
+      return os << "ProjectionPrivate";
     case Id::kProjectionPoseYaw:
-      return os << "kProjectionPoseYaw";
+      return os << "ProjectionPoseYaw";
     case Id::kProjectionPosePitch:
-      return os << "kProjectionPosePitch";
+      return os << "ProjectionPosePitch";
     case Id::kProjectionPoseRoll:
       return os << "ProjectionPoseRoll";
     case Id::kAudio:
-- 
2.43.0

