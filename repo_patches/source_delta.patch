From 04c24a384ee16996c8ac4c4d3649037643133d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 01/52] fix: invalidate the summary cache of iseg datasets when
 segments are removed, reindexed, archived or unarchived

---
 arki/dataset/iseg/checker.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index f119fed..9859cd2 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -106,10 +106,24 @@ public:
         return res;
     }
 
+    /// Delete the cached summaries of the dataset
+    void invalidate_dataset_summary()
+    {
+        index::SummaryCache scache(dataset().summary_cache_pathname);
+        scache.openRW();
+        scache.invalidate();
+    }
+
+    void pre_remove(std::shared_ptr<segment::Fixer>) override
+    {
+        invalidate_dataset_summary();
+    }
+
     void index(metadata::Collection&& mds) override
     {
         auto fixer = segment_checker->fixer();
         fixer->reindex(mds);
+        invalidate_dataset_summary();
 
         // Remove .metadata and .summary files
         std::filesystem::remove(segment->abspath_metadata());
@@ -130,6 +144,7 @@ public:
 
         auto fixer = segment_checker->fixer();
         fixer->reindex(mds);
+        invalidate_dataset_summary();
     }
 
     arki::metadata::Collection
@@ -140,6 +155,7 @@ public:
         auto fixer               = segment_checker->fixer();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
+        invalidate_dataset_summary();
         return mds;
     }
 };
-- 
2.43.0


From b8b7a1339abc763751c99064ca0b22386358e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 02/52] fix: invalidate the summary of simple datasets when a
 segment is removed

---
 arki/dataset/simple/checker.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 6568bed..800c8d7 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -160,6 +160,7 @@ public:
     {
         dataset_checker.manifest.remove(segment->relpath());
         dataset_checker.manifest.flush();
+        invalidate_dataset_summary();
     }
 
     void post_convert(std::shared_ptr<segment::Fixer>,
-- 
2.43.0


From 0ad21f5342e65c70f8454e7fb1646673ed2039ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 03/52] fix: allow to unarchive segments that are tarred,
 zipped or compressed

---
 arki/dataset/segmented.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 134e204..9086550 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -299,6 +299,9 @@ void CheckerSegment::unarchive()
     auto arcrelpath          = "last" / segment->relpath();
     metadata::Collection mdc = archives()->release_segment(
         arcrelpath, dataset().segment_session, segment->relpath());
+    // The data that has just been moved here can be stored in a different way
+    // than what was detected when there was none
+    segment_checker = segment->checker(lock);
     index(std::move(mdc));
 }
 
-- 
2.43.0


From 61d2ca4f6c1c82bf846490127481273c79143a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 04/52] fix: repack a compressed segment with an index in place

---
 arki/segment/data/gz.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 0bab34b..43f32f6 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -271,7 +271,7 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
         finalize->tmpfiles.push_back(tmpidxabspath);
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
-                std::filesystem::rename(tmpfiles[0], this->segment().abspath());
+                std::filesystem::rename(tmpfiles[0], gzabspath);
                 if (!sys::rename_ifexists(tmpfiles[1], gzidxabspath))
                     std::filesystem::remove(gzidxabspath);
             };
-- 
2.43.0


From abf700155e59cc0061d304e2f237266d8724844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 05/52] fix: appending to a segment with data newer than its
 metadata does not forget about the data already in it

---
 arki/segment/metadata.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 0e37b2e..e77feb9 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -315,9 +315,15 @@ Writer::Writer(std::shared_ptr<const Segment> segment,
                std::shared_ptr<core::AppendLock> lock)
     : segment::Writer(segment, lock), data(segment::Data::create(segment))
 {
-    // Read the metadata
-    auto reader = segment->reader(lock);
-    reader->read_all(mds.inserter_func());
+    // Read the metadata.
+    //
+    // Do this also if the data is newer than the metadata, for example because
+    // a previous append was interrupted. This is going to rewrite the metadata,
+    // and skipping what is there would forget about the data already in the
+    // segment
+    if (data->timestamp() &&
+        std::filesystem::exists(segment->abspath_metadata()))
+        Index(*segment).read_all(nullptr, mds.inserter_func());
 
     // Read the summary
     if (!mds.empty())
-- 
2.43.0


From 61d0aba3903b112f1e6549fe5ee276a70c692747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 06/52] fix: committing an empty append to a dir segment does
 not change its timestamp

---
 arki/segment/data/dir.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 639c0ef..17de3d6 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -513,7 +513,10 @@ template <typename Data> void BaseWriter<Data>::commit()
 {
     if (this->fired)
         return;
-    seqfile.write_sequence(current_pos - 1);
+    // Do not touch the segment timestamp if nothing was appended, or the data
+    // would look newer than its index
+    if (!pending.empty())
+        seqfile.write_sequence(current_pos - 1);
     for (auto& p : pending)
         p.set_source();
     pending.clear();
-- 
2.43.0


From 7cdddb7d0f93fb7b2c5bdb52a6caf20b118f4388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 07/52] fix: remove data also from tarred, zipped and
 compressed segments

---
 arki/dataset/segmented.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 9086550..ec66ffe 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -427,9 +427,6 @@ void Checker::remove(const metadata::Collection& mds)
         auto relpath    = sys::with_suffix(dataset().step()(time),
                                            "."s + format_name(source->format));
 
-        if (!dataset().segment_session->is_segment(relpath))
-            continue;
-
         by_segment[relpath].emplace(source->offset);
     }
 
@@ -437,6 +434,10 @@ void Checker::remove(const metadata::Collection& mds)
     {
         auto segment = dataset().segment_session->segment_from_relpath(i.first);
         auto seg     = this->segment(segment);
+        // Skip segments with no data, looking also for tarred, zipped or
+        // compressed ones
+        if (!seg->segment_checker->has_data())
+            continue;
         seg->remove_data(i.second);
         arki::nag::verbose("%s: %s: %zu data marked as deleted", name().c_str(),
                            i.first.c_str(), i.second.size());
-- 
2.43.0


From 4a4ac25a2e5bc16f57c27d8df999049933045edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 08/52] fix: removing old data does not remove all archived
 data

---
 arki/dataset/archive.cc   | 2 +-
 arki/dataset/segmented.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index 50b8cfb..236e080 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -400,7 +400,7 @@ void Checker::segments_recursive(
 void Checker::remove_old(CheckerConfig& opts)
 {
     archives->iter([&](dataset::Checker& a) {
-        a.remove_all(opts);
+        a.remove_old(opts);
         return true;
     });
 }
diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index ec66ffe..4de7cbc 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -380,7 +380,7 @@ void Checker::remove_old(CheckerConfig& opts)
         }
     });
 
-    local::Checker::remove_all(opts);
+    local::Checker::remove_old(opts);
 }
 
 void Checker::remove_all(CheckerConfig& opts)
-- 
2.43.0


From 474d770f61a1f212b4d194b886c9c978e416ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 09/52] fix: convert segments that have no summary

---
 arki/segment/metadata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index e77feb9..f5cee2c 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -728,7 +728,7 @@ Fixer::ConvertResult Fixer::tar()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -774,7 +774,7 @@ Fixer::ConvertResult Fixer::zip()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -822,7 +822,7 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
-- 
2.43.0


From d2885b7142a47413b2de3a9ca2e6e3844f2feef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 10/52] fix: segments with no data do not hide the rest of
 their archive from summaries

---
 arki/dataset/archive.cc         | 8 ++++++--
 arki/dataset/simple/manifest.cc | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index 236e080..aae0815 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -357,10 +357,14 @@ core::Interval Reader::get_stored_time_interval()
     core::Interval res;
     // Query only archives that fit that date range
     archives->iter([&](dataset::Reader& a) {
+        core::Interval i = a.get_stored_time_interval();
+        if (i.is_unbounded())
+            // The archive contains no data
+            return true;
         if (res.is_unbounded())
-            res = a.get_stored_time_interval();
+            res = i;
         else
-            res.extend(a.get_stored_time_interval());
+            res.extend(i);
         return true;
     });
     return res;
diff --git a/arki/dataset/simple/manifest.cc b/arki/dataset/simple/manifest.cc
index a939abd..90b0bc3 100644
--- a/arki/dataset/simple/manifest.cc
+++ b/arki/dataset/simple/manifest.cc
@@ -206,7 +206,10 @@ core::Interval Reader::get_stored_time_interval() const
 {
     core::Interval res;
     for (const auto& i : segmentinfo_cache)
-        if (res.is_unbounded())
+        if (i.time.is_unbounded())
+            // The segment contains no data
+            continue;
+        else if (res.is_unbounded())
             res = i.time;
         else
             res.extend(i.time);
-- 
2.43.0


From 38ec45c4016ad25d72712e53b09b1c3ad179291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:34 +0000
Subject: [PATCH 11/52] fix: when an import fails midway, the segments already
 imported stay in the manifest of simple datasets

---
 arki/dataset/simple/writer.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/arki/dataset/simple/writer.cc b/arki/dataset/simple/writer.cc
index 3ca89b8..e8d0b6c 100644
--- a/arki/dataset/simple/writer.cc
+++ b/arki/dataset/simple/writer.cc
@@ -57,19 +57,30 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
     auto lock = dataset().append_lock_dataset();
     manifest.reread();
     bool changed = false;
-    for (auto& s : by_segment)
+    try
     {
-        auto segment = dataset().segment_session->segment_from_relpath(s.first);
-        auto writer  = segment->writer(lock);
-        auto res     = writer->acquire(s.second, writer_config);
-        if (res.count_ok > 0)
+        for (auto& s : by_segment)
         {
-            manifest.set(segment->relpath(), res.segment_mtime,
-                         res.data_timespan);
-            invalidate_summary();
-            changed = true;
+            auto segment =
+                dataset().segment_session->segment_from_relpath(s.first);
+            auto writer = segment->writer(lock);
+            auto res    = writer->acquire(s.second, writer_config);
+            if (res.count_ok > 0)
+            {
+                manifest.set(segment->relpath(), res.segment_mtime,
+                             res.data_timespan);
+                invalidate_summary();
+                changed = true;
+            }
         }
     }
+    catch (...)
+    {
+        // Keep track of the data that has already been stored
+        if (changed)
+            manifest.flush();
+        throw;
+    }
     if (changed)
         manifest.flush();
 }
-- 
2.43.0


From 99185158fad72dc053206de7a97b6b327030fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 12/52] fix: do not compress data in formats that cannot be
 stored in compressed segments

---
 arki/segment/iseg.cc     | 7 ++++++-
 arki/segment/metadata.cc | 7 ++++++-
 arki/segment/scan.cc     | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 506d37a..b780eb6 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -9,6 +9,7 @@
 #include "arki/types/source/blob.h"
 #include "arki/utils/sys.h"
 #include "data.h"
+#include "data/gz.h"
 #include "iseg/index.h"
 #include "reporter.h"
 #include "scan.h"
@@ -411,7 +412,11 @@ bool Checker::has_data() const { return data->exists_on_disk(); }
 std::optional<time_t> Checker::timestamp() const { return data->timestamp(); }
 bool Checker::allows_tar() const { return !data->single_file(); }
 bool Checker::allows_zip() const { return !data->single_file(); }
-bool Checker::allows_compress() const { return data->single_file(); }
+bool Checker::allows_compress() const
+{
+    return data->single_file() &&
+           segment::data::gz::Data::can_store(segment().format());
+}
 
 arki::metadata::Collection Checker::scan()
 {
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index f5cee2c..3409176 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -8,6 +8,7 @@
 #include "arki/types/source/blob.h"
 #include "arki/utils/sys.h"
 #include "data.h"
+#include "data/gz.h"
 #include "reporter.h"
 #include "scan.h"
 
@@ -438,7 +439,11 @@ bool Checker::has_data() const { return data->exists_on_disk(); }
 std::optional<time_t> Checker::timestamp() const { return data->timestamp(); }
 bool Checker::allows_tar() const { return !data->single_file(); }
 bool Checker::allows_zip() const { return !data->single_file(); }
-bool Checker::allows_compress() const { return data->single_file(); }
+bool Checker::allows_compress() const
+{
+    return data->single_file() &&
+           segment::data::gz::Data::can_store(segment().format());
+}
 
 arki::metadata::Collection Checker::scan()
 {
diff --git a/arki/segment/scan.cc b/arki/segment/scan.cc
index aa1c279..78f5008 100644
--- a/arki/segment/scan.cc
+++ b/arki/segment/scan.cc
@@ -7,6 +7,7 @@
 #include "arki/types/source/blob.h"
 #include "arki/utils/sys.h"
 #include "data.h"
+#include "data/gz.h"
 #include "reporter.h"
 
 using namespace arki::utils;
@@ -188,7 +189,11 @@ bool Checker::has_data() const { return data->exists_on_disk(); }
 std::optional<time_t> Checker::timestamp() const { return data->timestamp(); }
 bool Checker::allows_tar() const { return !data->single_file(); }
 bool Checker::allows_zip() const { return !data->single_file(); }
-bool Checker::allows_compress() const { return data->single_file(); }
+bool Checker::allows_compress() const
+{
+    return data->single_file() &&
+           segment::data::gz::Data::can_store(segment().format());
+}
 
 arki::metadata::Collection Checker::scan()
 {
-- 
2.43.0


From 3e4aecec1fd033ea64910b9637752db2b9c45c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:04 +0000
Subject: [PATCH 13/52] fix: segments with out of date metadata can be
 converted

---
 arki/segment/metadata.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 3409176..29a682c 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -470,8 +470,13 @@ arki::metadata::Collection Checker::scan()
     // Rescan the file
     if (data->exists_on_disk())
     {
-        auto data_reader = data->reader(lock);
-        data_reader->scan_data([&](std::shared_ptr<Metadata> md) {
+        // Make sure data can be read even if the metadata is out of date
+        auto reader = std::make_shared<segment::scan::Reader>(m_segment, lock);
+        reader->read_all([&](std::shared_ptr<Metadata> md) {
+            const auto& source = md->sourceBlob();
+            md->set_source(types::Source::createBlob(
+                segment().format(), segment().root(), segment().relpath(),
+                source.offset, source.size, reader));
             res.acquire(md);
             return true;
         });
-- 
2.43.0


From 31900f3e5f304cc303ca839e89a1032c86bf4ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 14/52] fix: sorting with a period keeps the periods in time
 order

---
 arki/metadata/sort.cc | 44 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 43c985b..4f46c22 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -111,8 +111,45 @@ struct IntervalCompare : public Items
 
     Interval interval() const override { return m_interval; }
 
+    /// Number of the leading elements of the reference time that identify the
+    /// period
+    unsigned significant() const
+    {
+        switch (m_interval)
+        {
+            case YEAR:   return 1;
+            case MONTH:  return 2;
+            case DAY:    return 3;
+            case HOUR:   return 4;
+            case MINUTE: return 5;
+            default:     return 0;
+        }
+    }
+
+    /// Compare the periods where a and b are. Metadata without reference time
+    /// come first
+    int compare_period(const Metadata& a, const Metadata& b) const
+    {
+        const Reftime* ra = a.get<Reftime>();
+        const Reftime* rb = b.get<Reftime>();
+        if (!ra || !rb)
+            return (ra ? 1 : 0) - (rb ? 1 : 0);
+        auto ta        = ra->get_Position();
+        auto tb        = rb->get_Position();
+        const int va[] = {ta.ye, ta.mo, ta.da, ta.ho, ta.mi};
+        const int vb[] = {tb.ye, tb.mo, tb.da, tb.ho, tb.mi};
+        for (unsigned i = 0; i < significant(); ++i)
+            if (va[i] != vb[i])
+                return va[i] - vb[i];
+        return 0;
+    }
+
     int compare(const Metadata& a, const Metadata& b) const override
     {
+        // Groups are in increasing reftime order, and only data in the same
+        // group is sorted
+        if (int cmp = compare_period(a, b))
+            return cmp;
         return Items::compare(a, b);
     }
 
@@ -203,7 +240,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
         auto time = rt->get_Position();
         if (hasInterval && (!endofperiod.get() || time > *endofperiod))
         {
-            flush();
+            if (!flush())
+                return false;
             buffer.push_back(m);
             setEndOfPeriod(time);
         }
@@ -212,8 +250,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
     }
     else
     {
-        if (hasInterval)
-            flush();
+        if (hasInterval && !flush())
+            return false;
         buffer.push_back(m);
     }
     return true;
-- 
2.43.0


From 25b46cee45cdc4ce1aecd013e2741e0cc2c62bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 15/52] fix: time of day expressions match the intervals that
 have that time of day

Summaries of simple datasets did not count data at 12:00:00 when queried with
reftime:=12, because the interval of the data did not contain the whole hour
---
 arki/matcher/reftime/parser.cc | 98 ++++++++++++----------------------
 1 file changed, 34 insertions(+), 64 deletions(-)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 8d026ac..d4547da 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -66,6 +66,32 @@ static int time_to_seconds(const Time& t)
     return t.ho * 3600 + t.mi * 60 + t.se;
 }
 
+/**
+ * Check if an interval contains an instant whose time of day is between first
+ * and last (both included)
+ */
+static bool interval_has_daytime(const core::Interval& interval, int first,
+                                 int last)
+{
+    if (first > last)
+        return false;
+    if (!interval.begin.is_set() || !interval.end.is_set())
+        return true;
+    long long int duration = Time::duration(interval);
+    if (duration >= 3600 * 24)
+        return true;
+    if (duration <= 0)
+        return false;
+    // First and last second in the interval, counted from the midnight before
+    // it begins
+    int begin = time_to_seconds(interval.begin);
+    int end   = begin + duration - 1;
+    if (begin <= last && first <= end)
+        return true;
+    // The interval can continue on the next day
+    return first + 3600 * 24 <= end;
+}
+
 struct DateInterval : public DTMatch
 {
     Interval interval;
@@ -153,13 +179,7 @@ struct TimeLE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) <= ref)
-            return true;
-        if (time_to_seconds(interval.end) <= ref)
-            return true;
-        return false;
+        return interval_has_daytime(interval, 0, ref);
     }
     string sql(const std::string& column) const override
     {
@@ -178,13 +198,7 @@ struct TimeLT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) < ref)
-            return true;
-        if (time_to_seconds(interval.end) < ref)
-            return true;
-        return false;
+        return interval_has_daytime(interval, 0, ref - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -203,13 +217,7 @@ struct TimeGT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) > ref)
-            return true;
-        if (time_to_seconds(interval.end) > ref)
-            return true;
-        return false;
+        return interval_has_daytime(interval, ref + 1, 3600 * 24 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -228,13 +236,7 @@ struct TimeGE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) >= ref)
-            return true;
-        if (time_to_seconds(interval.end) >= ref)
-            return true;
-        return false;
+        return interval_has_daytime(interval, ref, 3600 * 24 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -260,25 +262,7 @@ struct TimeEQ : public DTMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        // If the times are more than 24hours apart, then we necessarily cover a
-        // whole day
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-
-        int rb = time_to_seconds(interval.begin);
-        int re = time_to_seconds(interval.end);
-        if (rb <= re)
-        {
-            if (rb <= geref && leref <= re)
-                return true;
-        }
-        else
-        {
-            if (leref <= re || rb <= geref)
-                return true;
-        }
-
-        return false;
+        return interval_has_daytime(interval, geref, leref);
     }
     string sql(const std::string& column) const override
     {
@@ -320,23 +304,9 @@ struct TimeExact : public DTMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        int rb = time_to_seconds(interval.begin);
-        int re = time_to_seconds(interval.end);
-        for (set<int>::const_iterator i = times.begin(); i != times.end(); ++i)
-        {
-            if (rb <= re)
-            {
-                if (*i >= rb && *i <= re)
-                    return true;
-            }
-            else
-            {
-                if (*i >= rb || *i <= re)
-                    return true;
-            }
-        }
+        for (const auto& t : times)
+            if (interval_has_daytime(interval, t, t))
+                return true;
         return false;
     }
     string sql(const std::string& column) const override
-- 
2.43.0


From 9fdec4438721f994ea14f0ea13e17c7ef70226ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 16/52] fix: reference time expressions with small time steps
 can be used on indices

sqlite refused to run queries like reftime:%5s, that became a list of
thousands of times
---
 arki/matcher/reftime/parser.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index d4547da..0e22ed7 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -311,6 +311,15 @@ struct TimeExact : public DTMatch
     }
     string sql(const std::string& column) const override
     {
+        // Long lists of times exceed what sqlite can parse
+        if (times.size() > 24)
+        {
+            int first = *times.begin();
+            int step  = *std::next(times.begin()) - first;
+            return "(strftime('%s', TIME(" + column + ")) % 86400 % " +
+                   std::to_string(step) + "==" + std::to_string(first) + ")";
+        }
+
         string res = "(";
         bool first = true;
         for (set<int>::const_iterator i = times.begin(); i != times.end(); ++i)
-- 
2.43.0


From 9ae1c2d0efad05cc773c03f2ecd38ba251679d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 17/52] fix: reject time steps of 0 in reference time
 expressions

Parsing reftime:%0h crashed with a division by zero, and steps too big to
represent looped forever
---
 arki/matcher/reftime/parser.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 0e22ed7..ac18c9f 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -1,6 +1,7 @@
 #include "parser.h"
 #include "arki/core/fuzzytime.h"
 #include "arki/core/time.h"
+#include <algorithm>
 #include <memory>
 #include <set>
 #include <sstream>
@@ -473,8 +474,14 @@ DTMatch* Parser::createStep(int val, int idx, const int* tt)
     else if (timebase == -1)
         timebase = 0;
 
+    if (val <= 0 || val > 3600 * 24)
+        throw std::invalid_argument(
+            "cannot parse reftime match expression: time step " +
+            std::to_string(val) + " is not between 1 and 86400");
+
+    // Steps longer than a day match once in each day
     std::set<int> times;
-    int repetition = timesecs(val, idx);
+    int repetition = std::min(timesecs(val, idx), 3600 * 24);
 
     for (int step = timebase % repetition; step < 3600 * 24; step += repetition)
         times.emplace(step);
-- 
2.43.0


From d39bd1fac3530565787235e8eb91147ff0ddd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 18/52] fix: queries with alternative reference times find the
 data of each of them

reftime:=2007-07-07 or =2007-07-09 found nothing, because datasets looked only
in the interval where all the alternatives matched
---
 arki/matcher/utils.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index d0ed774..6dd754c 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -1,6 +1,7 @@
 #include "utils.h"
 #include "aliases.h"
 #include "arki/core/binary.h"
+#include "arki/core/time.h"
 #include "arki/metadata.h"
 #include "arki/types.h"
 #include "arki/types/itemset.h"
@@ -193,15 +194,30 @@ std::string OR::toStringValueOnlyExpanded() const
 
 bool OR::intersect_interval(core::Interval& interval) const
 {
+    if (components.empty())
+        return true;
+
+    // Any of the components can match: use the smallest interval that contains
+    // what each of them matches
+    bool found = false;
+    core::Interval res;
     for (auto i : components)
     {
         const matcher::MatchReftime* rt =
             dynamic_cast<const matcher::MatchReftime*>(i.get());
         assert(rt != nullptr);
-        if (!rt->intersect_interval(interval))
-            return false;
+        core::Interval component(interval);
+        if (!rt->intersect_interval(component))
+            continue;
+        if (!found)
+            res = component;
+        else
+            res.extend(component);
+        found = true;
     }
-    return true;
+    if (found)
+        interval = res;
+    return found;
 }
 
 std::string OR::toReftimeSQL(const std::string& column) const
-- 
2.43.0


From 514f30f7feb8eefa9e0ab6b01aa21b8b3b349bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 19/52] fix: temporary files left behind by a crash do not
 prevent updating metadata files

---
 arki/metadata/collection.cc | 2 +-
 arki/segment/metadata.cc    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index f02b687..3264d47 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -81,7 +81,7 @@ struct AtomicWriter
 
     explicit AtomicWriter(const std::filesystem::path& fname)
         : destfname(fname),
-          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 29a682c..d807669 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -94,9 +94,9 @@ struct AtomicWriterWithSummary
 
     explicit AtomicWriterWithSummary(const Segment& segment)
         : segment(segment), out_md(path_tmp(segment.abspath_metadata()),
-                                   O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666),
+                                   O_WRONLY | O_TRUNC | O_CREAT, 0666),
           out_sum(path_tmp(segment.abspath_summary()),
-                  O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+                  O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
-- 
2.43.0


From 8637480220da9b3457728c92acca39c3b7befad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 20/52] fix: data can be appended to dir segments after an
 append was interrupted

---
 arki/segment/data/dir.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 17de3d6..4668d56 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -468,6 +468,11 @@ BaseWriter<Data>::BaseWriter(const segment::WriterConfig& config,
     current_pos = seqfile.read_sequence();
     if (!seqfile.new_file)
         ++current_pos;
+    // Skip files left behind by appends that were interrupted
+    while (std::filesystem::exists(
+        this->segment().abspath() /
+        SequenceFile::data_fname(current_pos, this->segment().format())))
+        ++current_pos;
 }
 
 template <typename Data> BaseWriter<Data>::~BaseWriter()
-- 
2.43.0


From 19857b2402b86d74760aca9a4bc0327ee7563705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 21/52] fix: interrupted imports do not leave an outdated
 summary cache behind

---
 arki/dataset/iseg/writer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arki/dataset/iseg/writer.cc b/arki/dataset/iseg/writer.cc
index 0c728f1..23a1f7b 100644
--- a/arki/dataset/iseg/writer.cc
+++ b/arki/dataset/iseg/writer.cc
@@ -70,6 +70,10 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
         std::shared_ptr<core::AppendLock> lock(
             dataset().append_lock_segment(segment->relpath()));
         auto writer = segment->writer(lock);
+        // Do this also before importing, or an import that is interrupted can
+        // leave an outdated cache behind
+        for (const auto& e : s.second)
+            scache.invalidate(*e->md);
         writer->acquire(s.second, writer_config);
         scache.invalidate(s.second);
     }
-- 
2.43.0


From b65506e0d9eafaf0a1ed7882274b02120eeffff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 22/52] fix: report as failed the items of imports whose data
 or metadata cannot be committed

---
 arki/segment/iseg.cc     | 15 +++++++++------
 arki/segment/metadata.cc | 20 +++++++-------------
 arki/segment/metadata.h  |  1 -
 3 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index b780eb6..f0c6cf7 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -213,6 +213,9 @@ Writer::acquire_batch_replace_never(arki::metadata::InboundBatch& batch,
                 ++res.count_ok;
             }
         }
+
+        data_writer->commit();
+        p_idx.commit();
     }
     catch (std::exception& e)
     {
@@ -224,8 +227,6 @@ Writer::acquire_batch_replace_never(arki::metadata::InboundBatch& batch,
         return res;
     }
 
-    data_writer->commit();
-    p_idx.commit();
     return res;
 }
 
@@ -248,6 +249,9 @@ Writer::acquire_batch_replace_always(arki::metadata::InboundBatch& batch,
             e->destination = config.destination_name;
             ++res.count_ok;
         }
+
+        data_writer->commit();
+        p_idx.commit();
     }
     catch (std::exception& e)
     {
@@ -259,8 +263,6 @@ Writer::acquire_batch_replace_always(arki::metadata::InboundBatch& batch,
         return res;
     }
 
-    data_writer->commit();
-    p_idx.commit();
     return res;
 }
 
@@ -342,6 +344,9 @@ Writer::acquire_batch_replace_higher_usn(arki::metadata::InboundBatch& batch,
             e->destination = config.destination_name;
             ++res.count_ok;
         }
+
+        data_writer->commit();
+        p_idx.commit();
     }
     catch (std::exception& e)
     {
@@ -353,8 +358,6 @@ Writer::acquire_batch_replace_higher_usn(arki::metadata::InboundBatch& batch,
         return res;
     }
 
-    data_writer->commit();
-    p_idx.commit();
     return res;
 }
 
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index d807669..388f442 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -355,16 +355,6 @@ void Writer::add(const Metadata& md, const types::source::Blob& source)
     mds.acquire(std::move(copy));
 }
 
-void Writer::write_metadata()
-{
-    auto path_md  = segment().abspath_metadata();
-    auto path_sum = segment().abspath_summary();
-
-    mds.prepare_for_segment_metadata();
-    mds.writeAtomically(path_md);
-    sum.writeAtomically(path_sum);
-}
-
 Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
                                       const WriterConfig& config)
 {
@@ -379,6 +369,13 @@ Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
             e->result      = arki::metadata::Inbound::Result::OK;
             e->destination = config.destination_name;
         }
+
+        // Write the metadata before committing the data, so that if that fails
+        // the segment is left as it was, and put it in place afterwards
+        AtomicWriterWithSummary writer(segment());
+        writer.write(mds);
+        data_writer->commit();
+        writer.commit();
     }
     catch (std::exception& e)
     {
@@ -396,9 +393,6 @@ Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
         return res;
     }
 
-    data_writer->commit();
-    write_metadata();
-
     auto ts = data->timestamp();
     if (!ts)
         throw std::runtime_error(segment().abspath().native() +
diff --git a/arki/segment/metadata.h b/arki/segment/metadata.h
index 7c1580d..48f3984 100644
--- a/arki/segment/metadata.h
+++ b/arki/segment/metadata.h
@@ -83,7 +83,6 @@ protected:
     get_data_writer(const segment::WriterConfig& config) const;
 
     void add(const Metadata& md, const types::source::Blob& source);
-    void write_metadata();
 
 public:
     Writer(std::shared_ptr<const Segment> segment,
-- 
2.43.0


From 53cbe88320c1cb2563a100a3bebc05f176025ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 23/52] fix: an interrupted rescan does not leave behind an
 empty index, that makes all data look deleted

---
 arki/segment/iseg.cc       |  4 +--
 arki/segment/iseg/index.cc | 57 +++++++++++++++++++++++---------------
 arki/segment/iseg/index.h  | 12 ++++++++
 3 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index f0c6cf7..741ee96 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -425,7 +425,7 @@ arki::metadata::Collection Checker::scan()
 {
     arki::metadata::Collection res;
 
-    if (has_valid_iseg_index(m_segment))
+    if (has_valid_iseg_index(m_segment) && index().has_tables())
     {
         auto reader = segment().reader(lock);
 
@@ -471,7 +471,7 @@ Checker::FsckResult Checker::fsck(segment::Reporter& reporter, bool quick)
     res.size  = data->size();
 
     time_t ts_index = sys::timestamp(segment().abspath_iseg_index(), 0);
-    if (!ts_index)
+    if (!ts_index || !index().has_tables())
     {
         if (data->is_empty())
         {
diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index d16e8a0..41f9e6b 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -467,32 +467,32 @@ WIndex<LockType>::WIndex(std::shared_ptr<const Segment> segment,
     : Index<LockType>(segment, lock), m_get_current("get_current", this->m_db),
       m_insert(this->m_db), m_replace("replace", this->m_db)
 {
-    bool need_create = !sys::access(index_pathname, F_OK);
+    m_db.open(index_pathname);
+    if (session().trace_sql)
+        m_db.trace();
+    this->setup_pragmas();
 
-    if (need_create)
-    {
-        m_db.open(index_pathname);
-        if (session().trace_sql)
-            m_db.trace();
-        this->setup_pragmas();
-        if (!m_others)
-        {
-            std::set<types::Code> other_members = this->all_other_tables();
-            if (not other_members.empty())
-                m_others = new Aggregate(m_db, "mdother", other_members);
-        }
-        init_db();
-    }
-    else
-    {
-        m_db.open(index_pathname);
-        if (session().trace_sql)
-            m_db.trace();
-        this->setup_pragmas();
+    if (has_tables())
         this->init_others();
+    else if (!m_others)
+    {
+        std::set<types::Code> other_members = this->all_other_tables();
+        if (not other_members.empty())
+            m_others = new Aggregate(m_db, "mdother", other_members);
     }
 }
 
+template <typename LockType> bool WIndex<LockType>::has_tables() const
+{
+    bool res = false;
+    Query query("has_tables", m_db);
+    query.compile("SELECT COUNT(*) FROM sqlite_master WHERE type='table' AND "
+                  "name='md'");
+    while (query.step())
+        res = query.fetch<int>(0) != 0;
+    return res;
+}
+
 template <typename LockType> void WIndex<LockType>::init_db()
 {
     if (m_uniques)
@@ -718,7 +718,10 @@ template <typename LockType> void WIndex<LockType>::flush()
 
 template <typename LockType> void WIndex<LockType>::reset()
 {
-    m_db.exec("DELETE FROM md");
+    if (has_tables())
+        m_db.exec("DELETE FROM md");
+    else
+        init_db();
 }
 
 template <typename LockType> void WIndex<LockType>::vacuum()
@@ -788,6 +791,8 @@ AIndex::AIndex(std::shared_ptr<const Segment> segment,
                std::shared_ptr<core::AppendLock> lock)
     : WIndex(segment, lock)
 {
+    if (!has_tables())
+        init_db();
 }
 
 CIndex::CIndex(std::shared_ptr<const Segment> segment,
@@ -796,6 +801,14 @@ CIndex::CIndex(std::shared_ptr<const Segment> segment,
 {
 }
 
+core::Pending CIndex::begin_transaction()
+{
+    auto res = WIndex::begin_transaction();
+    if (!has_tables())
+        init_db();
+    return res;
+}
+
 template class Index<const core::ReadLock>;
 template class Index<core::AppendLock>;
 template class Index<core::CheckLock>;
diff --git a/arki/segment/iseg/index.h b/arki/segment/iseg/index.h
index 9fe996b..443500c 100644
--- a/arki/segment/iseg/index.h
+++ b/arki/segment/iseg/index.h
@@ -192,6 +192,9 @@ public:
     using Index<LockType>::session;
     using Index<LockType>::segment;
 
+    /// Check if the database contains the tables of the index
+    bool has_tables() const;
+
     /**
      * Completely reindex the segment using the given metadata.
      *
@@ -256,6 +259,15 @@ class CIndex : public WIndex<core::CheckLock>
 public:
     CIndex(std::shared_ptr<const Segment> segment,
            std::shared_ptr<core::CheckLock> lock);
+
+    /**
+     * Begin a transaction.
+     *
+     * If the index is new, its tables are created in the transaction: if it
+     * gets interrupted, we do not leave behind an index that looks like that of
+     * a segment where everything has been deleted.
+     */
+    core::Pending begin_transaction();
 };
 
 extern template class Index<const core::ReadLock>;
-- 
2.43.0


From 884a3b12e5c8e77cff822c246d4eec4ef4bb7636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 24/52] fix: interrupted maintenance does not leave outdated
 summaries behind

---
 arki/dataset/iseg/checker.cc   | 12 ++++++++++++
 arki/dataset/segmented.cc      |  3 ++-
 arki/dataset/segmented.h       |  1 +
 arki/dataset/simple/checker.cc | 14 +++++++++++++-
 arki/segment/metadata.cc       |  3 +++
 5 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index 9859cd2..8101444 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -114,6 +114,12 @@ public:
         scache.invalidate();
     }
 
+    void pre_remove_data(std::shared_ptr<segment::Fixer>) override
+    {
+        // Do it also before, not to leave it outdated if we are interrupted
+        invalidate_dataset_summary();
+    }
+
     void pre_remove(std::shared_ptr<segment::Fixer>) override
     {
         invalidate_dataset_summary();
@@ -122,6 +128,8 @@ public:
     void index(metadata::Collection&& mds) override
     {
         auto fixer = segment_checker->fixer();
+        // Do it also before, not to leave it outdated if we are interrupted
+        invalidate_dataset_summary();
         fixer->reindex(mds);
         invalidate_dataset_summary();
 
@@ -143,6 +151,8 @@ public:
         mds = mds.without_duplicates(unique_codes);
 
         auto fixer = segment_checker->fixer();
+        // Do it also before, not to leave it outdated if we are interrupted
+        invalidate_dataset_summary();
         fixer->reindex(mds);
         invalidate_dataset_summary();
     }
@@ -153,6 +163,8 @@ public:
     {
         metadata::Collection mds = segment_checker->scan();
         auto fixer               = segment_checker->fixer();
+        // Do it also before, not to leave it outdated if we are interrupted
+        invalidate_dataset_summary();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
         invalidate_dataset_summary();
diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 4de7cbc..5b52a8c 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -309,7 +309,8 @@ segment::Fixer::MarkRemovedResult
 CheckerSegment::remove_data(const std::set<uint64_t>& offsets)
 {
     auto fixer = segment_checker->fixer();
-    auto res   = fixer->mark_removed(offsets);
+    pre_remove_data(fixer);
+    auto res = fixer->mark_removed(offsets);
     post_remove_data(fixer, res);
     return res;
 }
diff --git a/arki/dataset/segmented.h b/arki/dataset/segmented.h
index f9b12c1..e78907e 100644
--- a/arki/dataset/segmented.h
+++ b/arki/dataset/segmented.h
@@ -138,6 +138,7 @@ protected:
                              segment::Fixer::ReorderResult&)
     {
     }
+    virtual void pre_remove_data(std::shared_ptr<segment::Fixer>) {}
     virtual void post_remove_data(std::shared_ptr<segment::Fixer>,
                                   segment::Fixer::MarkRemovedResult&)
     {
diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 800c8d7..58284a4 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -137,6 +137,12 @@ public:
         return res;
     }
 
+    void pre_remove_data(std::shared_ptr<segment::Fixer>) override
+    {
+        // Do it also before, not to leave it outdated if we are interrupted
+        invalidate_dataset_summary();
+    }
+
     void post_remove_data(std::shared_ptr<segment::Fixer>,
                           segment::Fixer::MarkRemovedResult& res) override
     {
@@ -158,9 +164,9 @@ public:
 
     void pre_remove(std::shared_ptr<segment::Fixer>) override
     {
+        invalidate_dataset_summary();
         dataset_checker.manifest.remove(segment->relpath());
         dataset_checker.manifest.flush();
-        invalidate_dataset_summary();
     }
 
     void post_convert(std::shared_ptr<segment::Fixer>,
@@ -175,6 +181,8 @@ public:
     void index(metadata::Collection&& mds) override
     {
         auto fixer = segment_checker->fixer();
+        // Do it also before, not to leave it outdated if we are interrupted
+        invalidate_dataset_summary();
         fixer->reindex(mds);
 
         time_t mtime = segment_checker->timestamp().value();
@@ -203,6 +211,8 @@ public:
         mds.expand_date_range(interval);
 
         auto fixer = segment_checker->fixer();
+        // Do it also before, not to leave it outdated if we are interrupted
+        invalidate_dataset_summary();
         fixer->reindex(mds);
 
         // Add to manifest
@@ -217,6 +227,8 @@ public:
     {
         metadata::Collection mds = segment_checker->scan();
         auto fixer               = segment_checker->fixer();
+        // Do it also before, not to leave it outdated if we are interrupted
+        invalidate_dataset_summary();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
         dataset_checker.manifest.remove(segment->relpath());
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 388f442..8ca03dc 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -126,6 +126,9 @@ struct AtomicWriterWithSummary
 
     void commit()
     {
+        // Make sure that the summary never describes other metadata, even if we
+        // are interrupted
+        std::filesystem::remove(segment.abspath_summary());
         if (out_md)
         {
             out_md.close();
-- 
2.43.0


From c80b261f20c510be32997245f3148b8a5cea59cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 25/52] fix: dir segments are not lost if their repack or
 removal is interrupted

---
 arki/segment/data/dir.cc | 58 +++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 4668d56..b6f1236 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -33,6 +33,14 @@ namespace arki::segment::data::dir {
 
 namespace {
 
+/// Name for a temporary directory, that does not get scanned for segments
+std::filesystem::path hidden_path(const std::filesystem::path& abspath,
+                                  const char* suffix)
+{
+    return abspath.parent_path() /
+           ("." + abspath.filename().native() + suffix);
+}
+
 struct Creator : public AppendCreator
 {
     std::filesystem::path dest_abspath;
@@ -655,17 +663,29 @@ void BaseChecker<Data>::foreach_datafile(std::function<void(const char*)> f)
 
 template <typename Data> size_t BaseChecker<Data>::remove()
 {
+    // Move the directory away first, so that it is never found with only part
+    // of its data
+    auto abspath    = this->segment().abspath();
+    auto tmpabspath = hidden_path(abspath, ".delete");
+    sys::rmtree_ifexists(tmpabspath);
+
+    std::vector<std::string> names;
+    foreach_datafile([&](const char* name) { names.push_back(name); });
+    std::filesystem::rename(abspath, tmpabspath);
+
     size_t size = 0;
-    foreach_datafile([&](const char* name) {
-        filesystem::path pathname = this->segment().abspath() / name;
+    for (const auto& name : names)
+    {
+        filesystem::path pathname = tmpabspath / name;
         size += sys::size(pathname);
         sys::unlink(pathname);
-    });
-    std::filesystem::remove(this->segment().abspath() / ".sequence");
-    std::filesystem::remove(this->segment().abspath() / ".write-lock");
-    std::filesystem::remove(this->segment().abspath() / ".repack-lock");
+    }
+    std::filesystem::remove(tmpabspath / ".sequence");
+    std::filesystem::remove(tmpabspath / ".write-lock");
+    std::filesystem::remove(tmpabspath / ".repack-lock");
     // Also remove the directory if it is empty
-    rmdir(this->segment().abspath().c_str());
+    if (rmdir(tmpabspath.c_str()) == -1)
+        std::filesystem::rename(tmpabspath, abspath);
     return size;
 }
 
@@ -683,7 +703,7 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
         Rename(const std::filesystem::path& tmpabspath,
                const std::filesystem::path& abspath)
             : tmpabspath(tmpabspath), abspath(abspath),
-              tmppos(sys::with_suffix(abspath, ".pre-repack")), fired(false)
+              tmppos(hidden_path(abspath, ".pre-repack")), fired(false)
         {
         }
 
@@ -698,8 +718,19 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
             if (fired)
                 return;
 
-            // It is impossible to make this atomic, so we just try to make it
-            // as quick as possible
+            // Swap the old and new directories in one step, so that there is
+            // no time when the segment does not exist
+            if (renameat2(AT_FDCWD, tmpabspath.c_str(), AT_FDCWD,
+                          abspath.c_str(), RENAME_EXCHANGE) == 0)
+            {
+                // Remove the old data
+                sys::rmtree(tmpabspath);
+                fired = true;
+                return;
+            }
+
+            // If the file system cannot do it, it is impossible to make this
+            // atomic, so we just try to make it as quick as possible
 
             // Move the old directory inside the temp dir, to free the old
             // directory name
@@ -765,13 +796,14 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
         }
     };
 
-    filesystem::path tmprelpath =
-        sys::with_suffix(this->segment().relpath(), ".repack");
     filesystem::path tmpabspath =
-        sys::with_suffix(this->segment().abspath(), ".repack");
+        hidden_path(this->segment().abspath(), ".repack");
 
     core::Pending p(new Rename(tmpabspath, this->segment().abspath()));
 
+    // Remove what may have been left behind by an interrupted repack
+    sys::rmtree_ifexists(tmpabspath);
+
     Creator creator(this->segment(), mds, tmpabspath);
     creator.hardlink  = true;
     creator.validator = &arki::data::Validator::get(this->segment().format());
-- 
2.43.0


From 0afdc5a67eb2adea53c4a04834b613ec298d8609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 26/52] fix: data can be found again if a conversion or repack
 is interrupted

---
 arki/segment/data/gz.cc  | 52 ++++++++++++++++++++++++++++++----------
 arki/segment/data/tar.cc |  7 +++++-
 arki/segment/data/zip.cc |  7 +++++-
 arki/segment/iseg.cc     | 24 +++++++++++++++----
 arki/segment/metadata.cc | 10 ++++----
 5 files changed, 75 insertions(+), 25 deletions(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 43f32f6..4167fb5 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -76,6 +76,28 @@ struct Creator : public AppendCreator
     }
 };
 
+/// Put new .gz and .gz.idx files in place once they are complete
+struct CreateTransaction : public files::FinalizeTempfilesTransaction
+{
+    explicit CreateTransaction(const Segment& segment)
+    {
+        auto gzabspath  = sys::with_suffix(segment.abspath(), ".gz");
+        auto idxabspath = sys::with_suffix(gzabspath, ".idx");
+        tmpfiles.push_back(sys::with_suffix(gzabspath, ".tmp"));
+        tmpfiles.push_back(sys::with_suffix(idxabspath, ".tmp"));
+        on_commit = [=](const std::vector<std::filesystem::path>& tmpfiles) {
+            std::filesystem::remove(idxabspath);
+            sys::rename_ifexists(tmpfiles[1], idxabspath);
+            std::filesystem::rename(tmpfiles[0], gzabspath);
+        };
+        // Remove what may have been left behind by an interrupted conversion
+        std::filesystem::remove(tmpidx());
+    }
+
+    const std::filesystem::path& tmpgz() const { return tmpfiles[0]; }
+    const std::filesystem::path& tmpidx() const { return tmpfiles[1]; }
+};
+
 template <typename Data> struct CheckBackend : public AppendCheckBackend
 {
     const std::filesystem::path& gzabspath;
@@ -254,8 +276,9 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
     {
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
-                std::filesystem::rename(tmpfiles[0], gzabspath);
+                // Remove the index first, as it only works for the old data
                 std::filesystem::remove(sys::with_suffix(gzabspath, ".idx"));
+                std::filesystem::rename(tmpfiles[0], gzabspath);
             };
 
         Creator creator(this->segment(), mds, tmpabspath);
@@ -271,9 +294,10 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
         finalize->tmpfiles.push_back(tmpidxabspath);
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
+                // Remove the index first, as it only works for the old data
+                std::filesystem::remove(gzidxabspath);
                 std::filesystem::rename(tmpfiles[0], gzabspath);
-                if (!sys::rename_ifexists(tmpfiles[1], gzidxabspath))
-                    std::filesystem::remove(gzidxabspath);
+                sys::rename_ifexists(tmpfiles[1], gzidxabspath);
             };
 
         Creator creator(this->segment(), mds, tmpabspath, tmpidxabspath,
@@ -367,19 +391,20 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
+    // Create it with a temporary name, so that it is never found incomplete
+    gz::CreateTransaction tmp(segment);
     if (cfg.gz_group_size == 0)
     {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
+        gz::Creator creator(segment, mds, tmp.tmpgz());
         creator.create();
     }
     else
     {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
+        gz::Creator creator(segment, mds, tmp.tmpgz(), tmp.tmpidx(),
+                            cfg.gz_group_size);
         creator.create();
     }
+    tmp.commit();
 
     return std::make_shared<const Data>(segment.shared_from_this());
 }
@@ -410,21 +435,22 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
+    // Create it with a temporary name, so that it is never found incomplete
+    gz::CreateTransaction tmp(segment);
     if (cfg.gz_group_size == 0)
     {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
+        gz::Creator creator(segment, mds, tmp.tmpgz());
         creator.padding.push_back('\n');
         creator.create();
     }
     else
     {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
+        gz::Creator creator(segment, mds, tmp.tmpgz(), tmp.tmpidx(),
+                            cfg.gz_group_size);
         creator.padding.push_back('\n');
         creator.create();
     }
+    tmp.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index a81cd5a..04bc621 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -163,8 +163,13 @@ bool Data::can_store(DataFormat format) { return true; }
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".tar"));
+    // Create it with a temporary name, so that it is never found incomplete
+    auto abspath    = sys::with_suffix(segment.abspath(), ".tar");
+    auto tmpabspath = sys::with_suffix(abspath, ".tmp");
+    core::Pending p(new files::RenameTransaction(tmpabspath, abspath));
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    p.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/data/zip.cc b/arki/segment/data/zip.cc
index 4bfa45e..af7f36e 100644
--- a/arki/segment/data/zip.cc
+++ b/arki/segment/data/zip.cc
@@ -276,8 +276,13 @@ bool Data::can_store(DataFormat) { return true; }
 std::shared_ptr<const Data> Data::create(const Segment& segment,
                                          Collection& mds, const RepackConfig&)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".zip"));
+    // Create it with a temporary name, so that it is never found incomplete
+    auto abspath    = sys::with_suffix(segment.abspath(), ".zip");
+    auto tmpabspath = sys::with_suffix(abspath, ".tmp");
+    core::Pending p(new files::RenameTransaction(tmpabspath, abspath));
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    p.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 741ee96..bf2e71f 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -15,6 +15,7 @@
 #include "scan.h"
 
 using namespace arki::utils;
+using namespace std::string_view_literals;
 
 namespace arki::segment::iseg {
 
@@ -621,6 +622,11 @@ Fixer::ReorderResult Fixer::reorder(arki::metadata::Collection& mds,
                 "duplicate detected while reordering segment");
     }
 
+    // The changes to the data and to the index cannot be committed at the same
+    // time: if we are interrupted in between, have the index found older than
+    // the data, so that it gets rebuilt
+    sys::touch(segment().abspath_iseg_index(), 1);
+
     // Commit the changes in the file system
     pending_repack.commit();
 
@@ -655,7 +661,7 @@ size_t Fixer::remove_data()
 Fixer::ConvertResult Fixer::tar()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".tar")))
+    if (checker().data->type() == "tar"sv)
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -678,6 +684,9 @@ Fixer::ConvertResult Fixer::tar()
     auto mds = checker().scan();
     mds.sort_segment();
 
+    // If we are interrupted, have the index found older than the data
+    sys::touch(segment().abspath_iseg_index(), 1);
+
     // Create the .tar segment
     auto new_data = data_checker->tar(mds);
     res.size_post = new_data->size();
@@ -696,7 +705,7 @@ Fixer::ConvertResult Fixer::tar()
 Fixer::ConvertResult Fixer::zip()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".zip")))
+    if (checker().data->type() == "zip"sv)
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -719,6 +728,9 @@ Fixer::ConvertResult Fixer::zip()
     auto mds = checker().scan();
     mds.sort_segment();
 
+    // If we are interrupted, have the index found older than the data
+    sys::touch(segment().abspath_iseg_index(), 1);
+
     // Create the .zip segment
     auto new_data = data_checker->zip(mds);
     res.size_post = new_data->size();
@@ -737,9 +749,8 @@ Fixer::ConvertResult Fixer::zip()
 Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".gz")) or
-        std::filesystem::exists(
-            sys::with_suffix(segment().abspath(), ".gz.idx")))
+    if (checker().data->type() == "gzconcat"sv or
+        checker().data->type() == "gzlines"sv)
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -763,6 +774,9 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
     auto mds = checker().scan();
     mds.sort_segment();
 
+    // If we are interrupted, have the index found older than the data
+    sys::touch(segment().abspath_iseg_index(), 1);
+
     // Create the .zip segment
     auto new_data = data_checker->compress(mds, groupsize);
     res.size_post = new_data->size();
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 8ca03dc..f42316a 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -13,6 +13,7 @@
 #include "scan.h"
 
 using namespace arki::utils;
+using namespace std::string_view_literals;
 
 namespace arki::segment::metadata {
 
@@ -697,7 +698,7 @@ size_t Fixer::remove_data()
 Fixer::ConvertResult Fixer::tar()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".tar")))
+    if (checker().data->type() == "tar"sv)
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -743,7 +744,7 @@ Fixer::ConvertResult Fixer::tar()
 Fixer::ConvertResult Fixer::zip()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".zip")))
+    if (checker().data->type() == "zip"sv)
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -789,9 +790,8 @@ Fixer::ConvertResult Fixer::zip()
 Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".gz")) or
-        std::filesystem::exists(
-            sys::with_suffix(segment().abspath(), ".gz.idx")))
+    if (checker().data->type() == "gzconcat"sv or
+        checker().data->type() == "gzlines"sv)
     {
         auto ts = checker().data->timestamp();
         if (!ts)
-- 
2.43.0


From bf33a7eff70a21c99003211c01a22759fba29588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 27/52] fix: report as failed the imports that could not write
 metadata or summaries in full, or could not create their index

---
 arki/metadata/collection.cc | 6 +++---
 arki/segment/iseg/index.cc  | 4 ++++
 arki/summary.cc             | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index 3264d47..118dc7b 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -139,12 +139,12 @@ static void compressAndWrite(const std::vector<uint8_t>& buf,
         enc.add_unsigned(0u, 2);              // Version 0: LZO compressed
         enc.add_unsigned(obuf.size() + 4, 4); // Compressed len
         enc.add_unsigned(buf.size(), 4);      // Uncompressed len
-        out.write(tmp.data(), tmp.size());
-        out.write((const char*)obuf.data(), obuf.size());
+        out.write_all_or_retry(tmp.data(), tmp.size());
+        out.write_all_or_retry((const char*)obuf.data(), obuf.size());
     }
     else
         // Write the plain metadata
-        out.write(buf.data(), buf.size());
+        out.write_all_or_retry(buf.data(), buf.size());
 }
 
 static stream::SendResult compressAndWrite(const std::vector<uint8_t>& buf,
diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index 41f9e6b..20b35c9 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -792,7 +792,11 @@ AIndex::AIndex(std::shared_ptr<const Segment> segment,
     : WIndex(segment, lock)
 {
     if (!has_tables())
+    {
+        auto p = begin_transaction();
         init_db();
+        p.commit();
+    }
 }
 
 CIndex::CIndex(std::shared_ptr<const Segment> segment,
diff --git a/arki/summary.cc b/arki/summary.cc
index 8fccee6..4ed911e 100644
--- a/arki/summary.cc
+++ b/arki/summary.cc
@@ -243,7 +243,7 @@ void Summary::write(NamedFileDescriptor& out) const
     iotrace::trace_file(out, 0, encoded.size(), "write summary");
 
     // Write out
-    out.write(encoded.data(), encoded.size());
+    out.write_all_or_retry(encoded.data(), encoded.size());
 }
 
 stream::SendResult Summary::write(StreamOutput& out) const
-- 
2.43.0


From b0ab614feaa7c93a82212fc02b532fb6b6263236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 28/52] fix: matcher aliases that refer to aliases later in the
 alphabet

---
 arki/matcher/aliases.cc | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/arki/matcher/aliases.cc b/arki/matcher/aliases.cc
index 4eda634..0ec1c4d 100644
--- a/arki/matcher/aliases.cc
+++ b/arki/matcher/aliases.cc
@@ -3,8 +3,10 @@
 #include "arki/core/curl.h"
 #include "arki/core/file.h"
 #include "arki/stream.h"
+#include "arki/utils/regexp.h"
 #include "arki/utils/string.h"
 #include "utils.h"
+#include <set>
 #include <string>
 #include <vector>
 
@@ -49,6 +51,21 @@ void Aliases::validate(const Aliases& other)
     }
 }
 
+/// Check if the alternatives of an alias include the names of other aliases
+static bool refers_to(const std::string& name, const std::string& pattern,
+                      const std::set<std::string>& others)
+{
+    Splitter splitter("[ \t]+or[ \t]+", REG_EXTENDED | REG_ICASE);
+    for (Splitter::const_iterator i = splitter.begin(pattern);
+         i != splitter.end(); ++i)
+    {
+        std::string alternative = str::lower(*i);
+        if (alternative != name && others.find(alternative) != others.end())
+            return true;
+    }
+    return false;
+}
+
 void Aliases::add(const MatcherType& type, const core::cfg::Section& entries)
 {
     std::vector<std::pair<std::string, std::string>> aliases;
@@ -56,6 +73,13 @@ void Aliases::add(const MatcherType& type, const core::cfg::Section& entries)
     for (const auto& i : entries)
         aliases.push_back(make_pair(str::lower(i.first), i.second));
 
+    // Aliases can refer to other aliases: wait until those have been parsed.
+    // If they refer to each other, stop waiting.
+    bool wait = true;
+    std::set<std::string> missing;
+    for (const auto& alias : aliases)
+        missing.insert(alias.first);
+
     /*
      * Try multiple times to catch aliases referring to other aliases.
      * We continue until the number of aliases to parse stops decreasing.
@@ -67,6 +91,12 @@ void Aliases::add(const MatcherType& type, const core::cfg::Section& entries)
         {
             std::unique_ptr<OR> val;
 
+            if (wait && refers_to(alias.first, alias.second, missing))
+            {
+                failed.push_back(alias);
+                continue;
+            }
+
             // If instantiation fails, try it again later
             try
             {
@@ -87,8 +117,11 @@ void Aliases::add(const MatcherType& type, const core::cfg::Section& entries)
             {
                 j->second = move(val);
             }
+            missing.erase(alias.first);
         }
-        if (!failed.empty() && failed.size() == aliases.size())
+        if (wait && failed.size() == aliases.size())
+            wait = false;
+        else if (!failed.empty() && failed.size() == aliases.size())
             // If no new aliases were successfully parsed, reparse one of the
             // failing ones to raise the appropriate exception
             OR::parse(nullptr, type, failed.front().second);
-- 
2.43.0


From f6159022272f3cf05998a29d3716de754d498d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 29/52] fix: print matchers for any value, and merge them with
 others

---
 arki/matcher/utils.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index 6dd754c..18441a6 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -96,6 +96,11 @@ OR* OR::clone() const
 std::shared_ptr<OR> OR::merge(const OR& o) const
 {
     auto res = std::make_shared<OR>("");
+
+    // Without components anything matches, and it also does when merged
+    if (components.empty() || o.components.empty())
+        return res;
+
     std::unordered_set<std::string> seen;
 
     for (const auto& c : components)
@@ -464,7 +469,9 @@ std::string AND::toString() const
     {
         if (!res.empty())
             res += "; ";
-        res += i.second->toString();
+        std::string expr = i.second->toString();
+        // Also matchers for any value need to have one
+        res += expr.empty() ? types::formatCode(i.first) + ":" : expr;
     }
     return res;
 }
@@ -479,7 +486,9 @@ std::string AND::toStringExpanded() const
     {
         if (!res.empty())
             res += "; ";
-        res += i.second->toStringExpanded();
+        std::string expr = i.second->toStringExpanded();
+        // Also matchers for any value need to have one
+        res += expr.empty() ? types::formatCode(i.first) + ":" : expr;
     }
     return res;
 }
-- 
2.43.0


From c2d990b86649046edb90c7d4bddcc58e3d6e4e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 30/52] fix: print run matchers for any minute

---
 arki/matcher/run.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/matcher/run.cc b/arki/matcher/run.cc
index 1ebacc2..eeb346a 100644
--- a/arki/matcher/run.cc
+++ b/arki/matcher/run.cc
@@ -60,6 +60,9 @@ bool MatchRunMinute::match_buffer(types::Code code, const uint8_t* data,
 
 std::string MatchRunMinute::toString() const
 {
+    if (minute < 0)
+        return "MINUTE";
+
     stringstream res;
     unsigned hour = minute / 60;
     unsigned min  = minute % 60;
-- 
2.43.0


From ffd95b7e0644a5986e94bde2105d41e90ab6730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 31/52] fix: parse, print and match time ranges without a
 forecast step, and GRIB1 ranges with a two octets p1

---
 arki/matcher/timerange.cc |  7 +++++--
 arki/types/timerange.cc   | 14 +++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index 9866f5c..1af26b0 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -470,8 +470,11 @@ bool MatchTimerangeTimedef::matchItem(const Type& o) const
         int v_step;
         bool v_is_seconds;
         if (!v->get_forecast_step(v_step, v_is_seconds))
-            return step.value == -1;
-        if (step.value != v_step || step_is_seconds != v_is_seconds)
+        {
+            if (step.value != -1)
+                return false;
+        }
+        else if (step.value != v_step || step_is_seconds != v_is_seconds)
             return false;
     }
 
diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 25515f7..89262fd 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1043,12 +1043,16 @@ bool GRIB1::get_forecast_step(int& step, bool& is_seconds) const
     {
         case GRIB_TIMERANGE_FORECAST_AT_REFTIME_PLUS_P1: // = 0
         case GRIB_TIMERANGE_ANALYSIS_AT_REFTIME:         // = 1
-        case GRIB_TIMERANGE_VALID_AT_REFTIME_PLUS_P1P2:  // = 10
-                                                         // statproc = 254
+            // statproc = 254
             // CALL gribtr_to_second(unit, p1_g1, p1)
             // p2 = 0
             step = p1 * timemul;
             return true;
+        case GRIB_TIMERANGE_VALID_AT_REFTIME_PLUS_P1P2: // = 10
+            // statproc = 254
+            // p1 uses two octets
+            step = (p1 << 8 | p2) * timemul;
+            return true;
         case GRIB_TIMERANGE_VALID_IN_REFTIME_PLUS_P1_REFTIME_PLUS_P2: // = 2
             // ELSE IF (tri == 2) THEN ! somewhere between p1 and p2, not good
             // for grib2 standard
@@ -1719,7 +1723,10 @@ bool Timedef::timeunit_conversion(TimedefUnit unit, int& timemul)
 
 void Timedef::timeunit_output(TimedefUnit unit, uint32_t val, std::ostream& out)
 {
-    out << val << timeunit_suffix(unit);
+    if (unit == UNIT_MISSING)
+        out << "-";
+    else
+        out << val << timeunit_suffix(unit);
 }
 
 bool Timedef::timeunit_parse_suffix(const char*& str, TimedefUnit& unit)
@@ -1814,6 +1821,7 @@ bool Timedef::timeunit_parse(const char*& str, TimedefUnit& unit, uint32_t& val)
         unit = UNIT_MISSING;
         val  = 0;
 
+        ++str;
         skipCommasAndSpaces(str);
         return true;
     }
-- 
2.43.0


From 64667b6a730cd8017f6e97f13a7c29e8242c550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 32/52] fix: quote strings with spaces and separators in
 key=value lists

---
 arki/types/values.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index ef47a35..10ec00f 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -45,13 +45,14 @@ static bool needsQuoting(const std::string& str)
     if (str.empty())
         return false;
 
-    // String starting with spaces or double quotes, need quoting
-    if (isspace(str[0]) || str[0] == '"')
+    // String starting or ending with double quotes, need quoting
+    if (str[0] == '"' || str[str.size() - 1] == '"')
         return true;
 
-    // String ending with spaces or double quotes, need quoting
-    if (isspace(str[str.size() - 1]) || str[str.size() - 1] == '"')
-        return true;
+    // Strings containing what ends an unquoted string, need quoting
+    for (const auto& c : str)
+        if (isspace(c) || c == ',' || c == ';')
+            return true;
 
     // Strings containing nulls need quoting
     if (str.find('\0', 0) != std::string::npos)
-- 
2.43.0


From 9b9c43a9b3d9500edc97b3b8c269fbc212252c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 33/52] fix: segments with a weekly or biweekly step can be
 found, and stray files do not prevent looking for segments

---
 arki/dataset/step.cc | 147 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 119 insertions(+), 28 deletions(-)

diff --git a/arki/dataset/step.cc b/arki/dataset/step.cc
index 62cb1a0..173fac2 100644
--- a/arki/dataset/step.cc
+++ b/arki/dataset/step.cc
@@ -39,6 +39,32 @@ SegmentQuery::SegmentQuery(const std::filesystem::path& root, DataFormat format,
 {
 }
 
+/// Interval from a day of a month to another, or to the end of the month
+static core::Interval days_interval(int ye, int mo, int first, int end)
+{
+    if (mo < 1 || mo > 12)
+        return core::Interval();
+    core::Time begin = core::Time::create_lowerbound(ye, mo, first);
+    if (end > core::Time::days_in_month(ye, mo))
+        return core::Interval(begin, begin.start_of_next_month());
+    return core::Interval(begin, core::Time::create_lowerbound(ye, mo, end));
+}
+
+/// Interval of one of the two parts of a month
+static core::Interval biweek_interval(int ye, int mo, int biweek)
+{
+    return biweek == 1 ? days_interval(ye, mo, 1, 16)
+                       : days_interval(ye, mo, 16, 32);
+}
+
+/// Interval of one of the weeks of a month, starting from its first day. The
+/// last one ends with the month
+static core::Interval week_interval(int ye, int mo, int week)
+{
+    int first = (week - 1) * 7 + 1;
+    return days_interval(ye, mo, first, first + 7);
+}
+
 Files::Files(const Dirs& dirs, const std::filesystem::path& relpath, int value)
     : dirs(dirs), relpath(relpath), value(value)
 {
@@ -53,6 +79,20 @@ struct BaseFiles : public Files
     virtual std::filesystem::path to_relpath(const Regexp& re) const = 0;
     virtual DataFormat to_format(const utils::Regexp& re) const      = 0;
 
+    /// Check if the file has the format that is queried. What is not data has
+    /// no format.
+    bool has_format(const utils::Regexp& re) const
+    {
+        try
+        {
+            return to_format(re) == dirs.query.format;
+        }
+        catch (std::runtime_error&)
+        {
+            return false;
+        }
+    }
+
     void list(std::function<void(std::filesystem::path&& relpath)> dest)
         const override
     {
@@ -64,7 +104,7 @@ struct BaseFiles : public Files
                 continue;
             if (!re->match(f->d_name))
                 continue;
-            if (dirs.query.format != to_format(*re))
+            if (!has_format(*re))
                 continue;
 
             // Its period must match the matcher in q
@@ -92,7 +132,7 @@ struct BaseFiles : public Files
                 continue;
             if (!re->match(f->d_name))
                 continue;
-            if (dirs.query.format != to_format(*re))
+            if (!has_format(*re))
                 continue;
 
             if (res_name.empty() || f->d_name < res_name)
@@ -121,7 +161,7 @@ struct BaseFiles : public Files
                 continue;
             if (!re->match(f->d_name))
                 continue;
-            if (dirs.query.format != to_format(*re))
+            if (!has_format(*re))
                 continue;
             if (res_name.empty() || res_name < f->d_name)
             {
@@ -251,6 +291,59 @@ struct MonthDayFiles : public BaseFiles
     }
 };
 
+/// Files named after a month and a part of it
+struct MonthPartFiles : public BaseFiles
+{
+    using BaseFiles::BaseFiles;
+
+    /// Regular expression for the part of month
+    virtual const char* part_re() const                                 = 0;
+    virtual core::Interval part_interval(unsigned mo, unsigned p) const = 0;
+
+    std::unique_ptr<Regexp> make_regexp() const override
+    {
+        string re = "^(([[:digit:]]{2})-("s + part_re() + ")\\.([^.]+))" +
+                    dirs.query.extension_re;
+        return unique_ptr<Regexp>(new ERegexp(re, 5));
+    }
+
+    core::Interval to_period(const Regexp& re) const override
+    {
+        return part_interval(std::stoul(re[2]), std::stoul(re[3]));
+    }
+
+    DataFormat to_format(const Regexp& re) const override
+    {
+        return format_from_string(re[4]);
+    }
+    std::filesystem::path to_relpath(const Regexp& re) const override
+    {
+        return re[1];
+    }
+};
+
+struct MonthBiweekFiles : public MonthPartFiles
+{
+    using MonthPartFiles::MonthPartFiles;
+
+    const char* part_re() const override { return "[12]"; }
+    core::Interval part_interval(unsigned mo, unsigned p) const override
+    {
+        return biweek_interval(value, mo, p);
+    }
+};
+
+struct MonthWeekFiles : public MonthPartFiles
+{
+    using MonthPartFiles::MonthPartFiles;
+
+    const char* part_re() const override { return "[1-5]"; }
+    core::Interval part_interval(unsigned mo, unsigned p) const override
+    {
+        return week_interval(value, mo, p);
+    }
+};
+
 Dirs::Dirs(const SegmentQuery& query) : query(query) {}
 
 struct BaseDirs : public Dirs
@@ -648,26 +741,23 @@ struct Biweekly : public BaseStep
 {
     static const char* name() { return "biweekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::MonthBiweekFiles>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
         int ye, mo = -1, biweek = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 2)
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 3)
+            return false;
+        if (mo < 1 || mo > 12 || biweek < 1 || biweek > 2)
             return false;
 
-        switch (biweek)
-        {
-            case 1:
-                interval.begin.set_lowerbound(ye, mo, 1);
-                interval.end.set_lowerbound(ye, mo, 15);
-                break;
-            case 2:
-                interval.begin.set_lowerbound(ye, mo, 15);
-                interval.end.set_lowerbound(ye, mo + 1, 1);
-                interval.end.normalise();
-                break;
-            default: break;
-        }
+        interval = step::biweek_interval(ye, mo, biweek);
         return true;
     }
 
@@ -687,22 +777,23 @@ struct Weekly : public BaseStep
 {
     static const char* name() { return "weekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::MonthWeekFiles>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
         int ye, mo = -1, week = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 2)
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 3)
             return false;
-        int min_da = -1;
-        int max_da = -1;
-        if (week != -1)
-        {
-            min_da = (week - 1) * 7 + 1;
-            max_da = min_da + 7;
-        }
-        // TODO: are these normalised?
-        interval.begin.set_lowerbound(ye, mo, min_da);
-        interval.end.set_lowerbound(ye, mo, max_da);
+        if (mo < 1 || mo > 12 || week < 1 || week > 5)
+            return false;
+
+        interval = step::week_interval(ye, mo, week);
         return true;
     }
 
-- 
2.43.0


From 667348882d5b8e14525365846fb3ef82ae10ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 34/52] fix: report an error when the inline data of a metadata
 stream is truncated

---
 arki/metadata.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 669de8b..529f834 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -585,7 +585,16 @@ size_t Metadata::read_inline_data(core::AbstractInputFile& fd)
     iotrace::trace_file(fd, 0, si->size, "read inline data");
 
     // Read the inline data
-    fd.read(buf.data(), si->size);
+    size_t pos = 0;
+    while (pos < si->size)
+    {
+        size_t res = fd.read(buf.data() + pos, si->size - pos);
+        if (res == 0)
+            throw std::runtime_error(
+                fd.path().native() +
+                ": inline data not found after arkimet metadata");
+        pos += res;
+    }
     m_data = metadata::DataManager::get().to_data(s.format, std::move(buf));
 
     return si->size;
-- 
2.43.0


From 6e8e32b0b634343d653f1aca82139045d73cb5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 35/52] fix: batches split by time range can have data without
 one

Data with no time range dereferenced a null pointer, and data with no
reference time was not considered when looking for a change of time range.
---
 arki/metadata/clusterer.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/arki/metadata/clusterer.cc b/arki/metadata/clusterer.cc
index 5ca9290..a8400b5 100644
--- a/arki/metadata/clusterer.cc
+++ b/arki/metadata/clusterer.cc
@@ -52,11 +52,13 @@ bool Clusterer::exceeds_timerange(const Metadata& md) const
 {
     if (not split_timerange)
         return false;
-    if (not last_timerange)
+    if (count == 0)
         return false;
-    if (*last_timerange == *md.get<types::Timerange>())
-        return false;
-    return true;
+    const Timerange* timerange = md.get<types::Timerange>();
+    // Data without a time range can only be together
+    if (not last_timerange or not timerange)
+        return last_timerange or timerange;
+    return *last_timerange != *timerange;
 }
 
 void Clusterer::start_batch(DataFormat new_format)
@@ -73,12 +75,11 @@ void Clusterer::add_to_batch(std::shared_ptr<Metadata> md)
     ++count;
     if (cur_interval[0] == -1 && max_interval != 0)
         md_to_interval(*md, cur_interval);
-    const Reftime* rt = md->get<types::Reftime>();
-    if (!rt)
-        return;
-    rt->expand_date_range(timespan);
-    if (split_timerange and not last_timerange)
-        last_timerange = md->get<types::Timerange>()->clone();
+    if (split_timerange and count == 1)
+        if (const Timerange* timerange = md->get<types::Timerange>())
+            last_timerange = timerange->clone();
+    if (const Reftime* rt = md->get<types::Reftime>())
+        rt->expand_date_range(timespan);
 }
 
 void Clusterer::flush_batch()
-- 
2.43.0


From ce529d60abd4523bdb3756bdd886644a76b1290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 36/52] fix: types that do not exist in encoded metadata are
 errors, also with large numbers

The number was used as an index in the table of decoders without checking it.
---
 arki/types/utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/types/utils.cc b/arki/types/utils.cc
index 813a55d..fe70341 100644
--- a/arki/types/utils.cc
+++ b/arki/types/utils.cc
@@ -47,7 +47,8 @@ void MetadataType::register_type(MetadataType* type)
 
 const MetadataType* MetadataType::get(types::Code code)
 {
-    if (!decoders || decoders[code] == 0)
+    if (!decoders || static_cast<size_t>(code) >= decoders_size ||
+        decoders[code] == 0)
     {
         stringstream ss;
         ss << "cannot parse binary data: no decoder found for item type "
-- 
2.43.0


From d63f6acfc3eb7f062b99251a88a582b985869a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 37/52] fix: the type of BUFR products does not replace the
 type of the item in Python structures

The two had the same key, so the item could not be read back or formatted.
---
 arki/structured/keys.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/structured/keys.cc b/arki/structured/keys.cc
index 5169925..97046c3 100644
--- a/arki/structured/keys.cc
+++ b/arki/structured/keys.cc
@@ -114,7 +114,7 @@ static Keys make_python()
     res.product_number               = "number";
     res.product_table_version        = "table_version";
     res.product_local_table_version  = "local_table_version";
-    res.product_type                 = "type";
+    res.product_type                 = "product_type";
     res.product_subtype              = "subtype";
     res.product_local_subtype        = "local_subtype";
     res.product_value                = "value";
-- 
2.43.0


From 37bb670b4338c313513197c632dc4167bcef2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 38/52] fix: metadata with more than one note can be read back
 from its YAML form

Notes were separated by empty lines, that end the metadata, and were read
as a single note.
---
 arki/metadata.cc        |  5 ++---
 arki/metadata/reader.cc | 10 +++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 529f834..bcaaafe 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -692,11 +692,10 @@ std::string Metadata::to_yaml(const Formatter* formatter) const
             buf << **i << endl;
         else
         {
+            // An empty line would be the end of the metadata
+            buf << endl;
             for (; i != notes_end; ++i)
-            {
-                buf << endl;
                 buf << " " << **i << endl;
-            }
         }
     }
 
diff --git a/arki/metadata/reader.cc b/arki/metadata/reader.cc
index ad17fa2..bb4f3c7 100644
--- a/arki/metadata/reader.cc
+++ b/arki/metadata/reader.cc
@@ -239,7 +239,15 @@ std::shared_ptr<Metadata> YamlReader::read(bool read_inline)
         switch (type)
         {
             case TYPE_NOTE:
-                res->add_note(types::Note::decodeString(val));
+                // There can be more notes, each in its line
+                for (size_t pos = 0, end; pos != std::string::npos; pos = end)
+                {
+                    end = val.find("\n[", pos);
+                    if (end != std::string::npos)
+                        ++end;
+                    res->add_note(types::Note::decodeString(
+                        utils::str::strip(val.substr(pos, end - pos))));
+                }
                 break;
             case TYPE_SOURCE:
                 res->set_source(
-- 
2.43.0


From f2085aa05c14c112c205ad626e06d429a07afd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 39/52] fix: merged queries stop when the consumer asks to, and
 say if they completed

---
 arki/dataset/merged.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index ce85994..5524d81 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -351,10 +351,11 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
         {
             canceled = true;
             readers.cancel();
+            break;
         }
     }
 
-    return track.done(canceled);
+    return track.done(!canceled);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
-- 
2.43.0


From 2482f913fe47493090fb1d8ff277a6788cfdfc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 40/52] fix: queries of simple datasets stop as soon as the
 consumer asks to

---
 arki/dataset/simple/reader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index 17d1a80..a923bf3 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -67,8 +67,10 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
         auto segment = dataset().segment_session->segment_from_relpath(
             segmentinfo.relpath);
         auto reader = segment->reader(lock);
-        reader->query_data(
-            q, [&](std::shared_ptr<Metadata> md) { return sorter.add(md); });
+        if (!reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
+                return sorter.add(md);
+            }))
+            return track.done(false);
         if (!sorter.flush())
             return track.done(false);
     }
-- 
2.43.0


From 2589072caff5951eb6e0e18d1c656a7349cd61e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 41/52] fix: the MANIFEST is read again also if its new version
 has the inode of an old one

---
 arki/dataset/simple/manifest.cc | 15 +++++++++++++--
 arki/dataset/simple/manifest.h  |  6 +++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/arki/dataset/simple/manifest.cc b/arki/dataset/simple/manifest.cc
index 90b0bc3..9fc438c 100644
--- a/arki/dataset/simple/manifest.cc
+++ b/arki/dataset/simple/manifest.cc
@@ -131,7 +131,8 @@ Reader::Reader(const std::filesystem::path& root) : m_root(root) {}
 bool Reader::reread()
 {
     auto pathname = m_root / "MANIFEST";
-    ino_t inode   = sys::inode(pathname, 0);
+    auto st       = sys::stat(pathname);
+    ino_t inode   = st ? st->st_ino : 0;
 
     if (inode == 0)
     {
@@ -149,10 +150,20 @@ bool Reader::reread()
         }
     }
 
-    if (inode == last_inode)
+    // The inode number alone is not enough: the file is replaced at each
+    // change, and the inode of a previous version can be used again
+    if (inode == last_inode &&
+        (!st || (st->st_size == last_size &&
+                 st->st_mtim.tv_sec == last_mtime.tv_sec &&
+                 st->st_mtim.tv_nsec == last_mtime.tv_nsec)))
         return inode != 0;
 
     last_inode = inode;
+    if (st)
+    {
+        last_size  = st->st_size;
+        last_mtime = st->st_mtim;
+    }
     if (inode == 0)
     {
         segmentinfo_cache.clear();
diff --git a/arki/dataset/simple/manifest.h b/arki/dataset/simple/manifest.h
index 04b126e..91acce8 100644
--- a/arki/dataset/simple/manifest.h
+++ b/arki/dataset/simple/manifest.h
@@ -5,9 +5,11 @@
 #include <arki/core/time.h>
 #include <arki/matcher/fwd.h>
 #include <arki/summary.h>
+#include <ctime>
 #include <filesystem>
 #include <memory>
 #include <string>
+#include <sys/types.h>
 #include <vector>
 
 namespace arki::dataset::simple {
@@ -51,7 +53,9 @@ protected:
     bool legacy_sql = false;
 
     std::vector<SegmentInfo> segmentinfo_cache;
-    ino_t last_inode = 0;
+    ino_t last_inode           = 0;
+    off_t last_size            = 0;
+    struct timespec last_mtime = {0, 0};
 
 public:
     explicit Reader(const std::filesystem::path& root);
-- 
2.43.0


From 64d77b1e9ea72da4c057173de46453308457ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 42/52] fix: readers of archives find those created after they
 were opened

---
 arki/dataset/archive.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index aae0815..f11bfe6 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -97,7 +97,12 @@ template <typename Archive> struct ArchivesRoot
     {
         // Clean up existing archives and restart from scratch
         clear();
+        add_new(include_invalid);
+    }
 
+    // Add the archives that are not there yet, and leave alone the others
+    void add_new(bool include_invalid = false)
+    {
         // Look for subdirectories: they are archives
         sys::Path d(archive_root);
         set<string> names;
@@ -127,6 +132,8 @@ template <typename Archive> struct ArchivesRoot
         // Look for existing archives
         for (const auto& i : names)
         {
+            if (lookup(i))
+                continue;
             auto a(this->instantiate(i));
             if (a.get())
             {
@@ -295,12 +302,15 @@ std::string Reader::type() const { return "archives"; }
 
 bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
 {
+    // Archives may have been created since the reader was opened
+    archives->add_new();
     return archives->iter(
         [&](dataset::Reader& r) { return r.query_data(q, dest); });
 }
 
 void Reader::impl_stream_query_bytes(const query::Bytes& q, StreamOutput& out)
 {
+    archives->add_new();
     archives->iter([&](dataset::Reader& r) {
         r.query_bytes(q, out);
         return true;
@@ -331,6 +341,8 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
         // If the matcher is inconsistent, return now
         return;
 
+    archives->add_new();
+
     // Extract date range from matcher
     if (!interval.begin.is_set() && !interval.end.is_set())
     {
@@ -355,6 +367,7 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
 core::Interval Reader::get_stored_time_interval()
 {
     core::Interval res;
+    archives->add_new();
     // Query only archives that fit that date range
     archives->iter([&](dataset::Reader& a) {
         core::Interval i = a.get_stored_time_interval();
-- 
2.43.0


From f36b5bcd52ba891bb7bf93bde3f208bc67642dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 43/52] fix: invalidating the summary cache while others do it
 too is not an error

---
 arki/dataset/index/summarycache.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index e20446a..1b03af0 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -94,7 +94,8 @@ void SummaryCache::invalidate()
     sys::Path dir(m_scache_root);
     for (sys::Path::iterator i = dir.begin(); i != dir.end(); ++i)
         if (str::endswith(i->d_name, ".summary"))
-            sys::unlink(m_scache_root / i->d_name);
+            // Another process may have just deleted it
+            std::filesystem::remove(m_scache_root / i->d_name);
 }
 
 void SummaryCache::invalidate(int year, int month)
-- 
2.43.0


From b69add7e5171e85d8147c1740c79b02bca842506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 44/52] fix: release the archive lock after archiving each
 segment

A checker that kept it while waiting for the lock of the next segment
could wait forever for another one, that had that segment and was waiting
for the archive.
---
 arki/dataset/iseg/checker.cc   | 1 +
 arki/dataset/local.cc          | 2 ++
 arki/dataset/local.h           | 3 +++
 arki/dataset/segmented.cc      | 2 ++
 arki/dataset/segmented.h       | 8 ++++++++
 arki/dataset/simple/checker.cc | 1 +
 6 files changed, 17 insertions(+)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index 8101444..05ab71d 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -64,6 +64,7 @@ public:
         return dynamic_pointer_cast<dataset::archive::Checker>(
             dataset_checker.archive());
     }
+    void close_archives() override { dataset_checker.close_archive(); }
 
     segmented::SegmentState fsck(dataset::Reporter& reporter,
                                  bool quick = true) override
diff --git a/arki/dataset/local.cc b/arki/dataset/local.cc
index 0ccb2dd..c908d30 100644
--- a/arki/dataset/local.cc
+++ b/arki/dataset/local.cc
@@ -174,6 +174,8 @@ std::shared_ptr<dataset::Checker> Checker::archive()
     return m_archive;
 }
 
+void Checker::close_archive() { m_archive.reset(); }
+
 void Checker::repack(CheckerConfig& opts, unsigned test_flags)
 {
     if (opts.offline && dataset().hasArchive())
diff --git a/arki/dataset/local.h b/arki/dataset/local.h
index 75742e4..3282396 100644
--- a/arki/dataset/local.h
+++ b/arki/dataset/local.h
@@ -116,6 +116,9 @@ public:
     /// Return the Checker for this dataset archives
     std::shared_ptr<dataset::Checker> archive();
 
+    /// Deallocate the Checker for this dataset archives, releasing its locks
+    void close_archive();
+
     void repack(CheckerConfig& opts, unsigned test_flags = 0) override;
     void check(CheckerConfig& opts) override;
     void remove_old(CheckerConfig& opts) override;
diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 5b52a8c..432269c 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -292,6 +292,7 @@ void CheckerSegment::archive()
 
     // Acquire in the achive
     archives()->index_segment(new_relpath, std::move(mds));
+    close_archives();
 }
 
 void CheckerSegment::unarchive()
@@ -303,6 +304,7 @@ void CheckerSegment::unarchive()
     // than what was detected when there was none
     segment_checker = segment->checker(lock);
     index(std::move(mdc));
+    close_archives();
 }
 
 segment::Fixer::MarkRemovedResult
diff --git a/arki/dataset/segmented.h b/arki/dataset/segmented.h
index e78907e..90305bf 100644
--- a/arki/dataset/segmented.h
+++ b/arki/dataset/segmented.h
@@ -177,6 +177,14 @@ public:
     virtual segmented::Dataset& dataset()                         = 0;
     virtual std::shared_ptr<dataset::archive::Checker> archives() = 0;
 
+    /**
+     * Stop working with the archives, and release their locks.
+     *
+     * Waiting for the lock of another segment while holding those could
+     * deadlock with another checker that is archiving that segment.
+     */
+    virtual void close_archives() = 0;
+
     virtual SegmentState fsck(dataset::Reporter& reporter,
                               bool quick = true) = 0;
 
diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 58284a4..5a32556 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -57,6 +57,7 @@ public:
         return dynamic_pointer_cast<dataset::archive::Checker>(
             dataset_checker.archive());
     }
+    void close_archives() override { dataset_checker.close_archive(); }
 
     /// Delete the dataset summary (if present)
     void invalidate_dataset_summary()
-- 
2.43.0


From 98fd5282f6fcc46725bd74e45b4ae2f12c2df39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 45/52] fix: a cached summary that gets deleted while it is
 opened is not an error

---
 arki/dataset/simple/reader.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index a923bf3..b069618 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -9,6 +9,7 @@
 #include "arki/types/source/blob.h"
 #include "arki/utils/sys.h"
 #include <algorithm>
+#include <fcntl.h>
 
 using namespace std;
 using namespace arki::utils;
@@ -112,10 +113,12 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
     // global summary
     auto cache_pathname = dataset().path / "summary";
 
-    if (sys::access(cache_pathname, R_OK))
+    // The cache may be deleted at any time, if there is an import in progress
+    sys::File cache_fd(cache_pathname);
+    if (sys::access(cache_pathname, R_OK) && cache_fd.open_ifexists(O_RDONLY))
     {
         Summary s;
-        s.read_file(cache_pathname);
+        s.read(cache_fd);
         s.filter(matcher, summary);
     }
     else if (sys::access(dataset().path, W_OK))
-- 
2.43.0


From 1057e17c6a1fbd8d0ecd40219916e0a67d911074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 46/52] fix: a segment summary that gets replaced while it is
 opened is not an error

---
 arki/segment/metadata.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index f42316a..834009d 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -299,10 +299,12 @@ bool Reader::query_data(const query::Data& q, metadata_dest_func dest)
 void Reader::query_summary(const Matcher& matcher, Summary& summary)
 {
     auto summary_path = m_segment->abspath_summary();
-    if (sys::access(summary_path, R_OK))
+    // The summary may be replaced at any time, if there is an import in progress
+    sys::File summary_fd(summary_path);
+    if (sys::access(summary_path, R_OK) && summary_fd.open_ifexists(O_RDONLY))
     {
         Summary s;
-        s.read_file(summary_path);
+        s.read(summary_fd);
         s.filter(matcher, summary);
     }
     else
-- 
2.43.0


From 322a80fa7ce54dab3dd2bc036b80916343dfe36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 47/52] fix: send all the output of filters that have ended

---
 arki/stream/concrete-parts.tcc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index e48d9b3..b6c9103 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -217,9 +217,17 @@ struct FromFilter
     bool setup_poll()
     {
         if (filter_stdout_available)
+        {
+            // Do not poll it at all, or if the filter has ended we would get
+            // POLLHUP continuously until what it has written can be moved
+            pfd_filter_stdout->fd = -1;
             pfd_filter_stdout->events = 0;
+        }
         else
+        {
+            pfd_filter_stdout->fd = stream.filter_process->cmd.get_stdout();
             pfd_filter_stdout->events = POLLIN;
+        }
 
         trace_streaming("  FromFilter.setup_poll: filter_stdout: %d:%x\n", stream.filter_process->cmd.get_stdout(), (int)pfd_filter_stdout->events);
         return stream.filter_process->cmd.get_stdout() != -1;
@@ -350,9 +358,9 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
                 case TransferResult::WOULDBLOCK:
                     break;
             }
-        } else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
+        } else if (!this->filter_stdout_available && (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))) {
             trace_streaming("  FromFilterSplice.on_poll: filter stdout closed\n");
-            // Filter stdout closed its endpoint
+            // Filter stdout closed its endpoint, and there is nothing left to read from it
             this->stream.filter_process->cmd.close_stdout();
             this->pfd_filter_stdout->fd = -1;
         }
@@ -465,8 +473,8 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
             moved_data = true;
         }
 
-        if (!moved_data && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
-            // Filter stdout closed its endpoint
+        if (!moved_data && !this->filter_stdout_available && (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))) {
+            // Filter stdout closed its endpoint, and there is nothing left to read from it
             trace_streaming("  FromFilterReadWrite.on_poll: POLLERR|POLLUP on filter_stdout: closing it\n");
             this->stream.filter_process->cmd.close_stdout();
             this->pfd_filter_stdout->fd = -1;
@@ -563,10 +571,9 @@ struct FromFilterAbstract : public FromFilter<Backend>
                     break;
             }
         }
-
-        if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
+        else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
         {
-            // Filter stdout closed its endpoint
+            // Filter stdout closed its endpoint, and there is nothing left to read from it
             this->stream.filter_process->cmd.close_stdout();
             this->pfd_filter_stdout->fd = -1;
         }
-- 
2.43.0


From 4610fbd4b8d3b53e52925c6b3151a8fe980be836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 48/52] fix: do not send data twice to filters when splice is
 found not to be available

---
 arki/stream/concrete.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/arki/stream/concrete.cc b/arki/stream/concrete.cc
index 5449ae6..67674d4 100644
--- a/arki/stream/concrete.cc
+++ b/arki/stream/concrete.cc
@@ -107,6 +107,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_buffer(const void* data,
 
     if (filter_process)
     {
+        const size_t pre = filter_process->size_stdin;
         try
         {
             return filter_sender->send_buffer(data, size);
@@ -116,7 +117,10 @@ SendResult ConcreteStreamOutputBase<Backend>::send_buffer(const void* data,
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_buffer(data, size);
+            // Continue after what the filter has already been given
+            const size_t sent = filter_process->size_stdin - pre;
+            return filter_sender->send_buffer(
+                static_cast<const uint8_t*>(data) + sent, size - sent);
         }
     }
     else
@@ -135,6 +139,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_line(const void* data,
 
     if (filter_process)
     {
+        const size_t pre = filter_process->size_stdin;
         try
         {
             return filter_sender->send_line(data, size);
@@ -144,7 +149,10 @@ SendResult ConcreteStreamOutputBase<Backend>::send_line(const void* data,
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_line(data, size);
+            // Continue after what the filter has already been given
+            const size_t sent = filter_process->size_stdin - pre;
+            return filter_sender->send_line(
+                static_cast<const uint8_t*>(data) + sent, size - sent);
         }
     }
     else
@@ -164,6 +172,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_file_segment(
 
     if (filter_process)
     {
+        const size_t pre = filter_process->size_stdin;
         try
         {
             return filter_sender->send_file_segment(fd, offset, size);
@@ -173,7 +182,10 @@ SendResult ConcreteStreamOutputBase<Backend>::send_file_segment(
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_file_segment(fd, offset, size);
+            // Continue after what the filter has already been given
+            const size_t sent = filter_process->size_stdin - pre;
+            return filter_sender->send_file_segment(fd, offset + sent,
+                                                    size - sent);
         }
     }
     else
-- 
2.43.0


From 0bba2415e328bd75c22f725af7ff27ffec39067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 49/52] fix: do not wait for filters that are waiting for us

---
 arki/stream/base.cc   |  4 ++++
 arki/stream/filter.cc | 10 ++++++++++
 arki/stream/filter.h  |  5 +++++
 3 files changed, 19 insertions(+)

diff --git a/arki/stream/base.cc b/arki/stream/base.cc
index e91a3ed..92f7e87 100644
--- a/arki/stream/base.cc
+++ b/arki/stream/base.cc
@@ -47,6 +47,7 @@ std::unique_ptr<FilterProcess> BaseStreamOutput::stop_filter()
     flush_filter_output();
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
+    proc->close_pipes();
     proc->stop();
 
     filter_sender.reset();
@@ -60,7 +61,10 @@ void BaseStreamOutput::abort_filter()
         return;
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
+    proc->close_pipes();
     proc->stop();
+
+    filter_sender.reset();
 }
 
 Sender::~Sender() {}
diff --git a/arki/stream/filter.cc b/arki/stream/filter.cc
index 2f29fa5..de9c036 100644
--- a/arki/stream/filter.cc
+++ b/arki/stream/filter.cc
@@ -35,6 +35,16 @@ void FilterProcess::start()
         child_stderr.setfl(child_stderr.getfl() | O_NONBLOCK);
 }
 
+void FilterProcess::close_pipes()
+{
+    if (cmd.get_stdin() != -1)
+        cmd.close_stdin();
+    if (cmd.get_stdout() != -1)
+        cmd.close_stdout();
+    if (cmd.get_stderr() != -1)
+        cmd.close_stderr();
+}
+
 void FilterProcess::stop()
 {
     if (timeout_ms == -1)
diff --git a/arki/stream/filter.h b/arki/stream/filter.h
index 587391b..3b53bc4 100644
--- a/arki/stream/filter.h
+++ b/arki/stream/filter.h
@@ -36,6 +36,11 @@ public:
     FilterProcess(const std::vector<std::string>& args, int timeout_ms = -1);
 
     void start();
+    /**
+     * Close our end of the pipes that are still open, so that the filter does
+     * not wait for us if we are going to wait for it
+     */
+    void close_pipes();
     void stop();
     void terminate();
 
-- 
2.43.0


From 8108d680640c585e82d84e49e25e102de76d9794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 50/52] fix: filters that close their output are still given
 the data, and all their errors are read

---
 arki/stream/concrete-parts.tcc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index b6c9103..c9db142 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -333,9 +333,6 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
         auto& cmd = this->stream.filter_process->cmd;
         trace_streaming("  FromFilterSplice.on_poll [%d %d] %d %d\n", cmd.get_stdout(), cmd.get_stderr(), this->filter_stdout_available, this->destination_available);
 
-        if (cmd.get_stdout() == -1 && cmd.get_stderr() == -1)
-            return true;
-
         if (this->filter_stdout_available and this->destination_available)
         {
             trace_streaming("  FromFilterSplice.on_poll: source and destination available: transfer data\n");
@@ -347,8 +344,9 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
                 case TransferResult::DONE:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
                 case TransferResult::EOF_SOURCE:
-                    // Filter closed stdout, evidently we are done
-                    done = true;
+                    // Filter closed stdout, but it can still want our data
+                    this->stream.filter_process->cmd.close_stdout();
+                    this->pfd_filter_stdout->fd = -1;
                     break;
                 case TransferResult::EOF_DEST:
                     // Destination closed its pipe
@@ -441,6 +439,7 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
                 case TransferResult::EOF_SOURCE:
                     trace_streaming("  FromFilterReadWrite.on_poll: EOF on filter_stdout: closing it\n");
                     this->stream.filter_process->cmd.close_stdout();
+                    this->pfd_filter_stdout->fd = -1;
                     break;
                 case TransferResult::EOF_DEST:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
@@ -456,9 +455,6 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
             switch (transfer_available_output_write())
             {
                 case TransferResult::DONE:
-                    if (this->stream.filter_process->cmd.get_stdout() == -1)
-                        // We are done if filter_stdout is closed
-                        done = true;
                     break;
                 case TransferResult::EOF_SOURCE:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
@@ -563,7 +559,8 @@ struct FromFilterAbstract : public FromFilter<Backend>
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
                 case TransferResult::EOF_SOURCE:
                     // Filter closed stdout, stop polling it
-                    done = true;
+                    this->stream.filter_process->cmd.close_stdout();
+                    this->pfd_filter_stdout->fd = -1;
                     break;
                 case TransferResult::EOF_DEST:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
-- 
2.43.0


From 657b22d831a103078d3fc24472167f6f5702be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 51/52] fix: converting a segment whose index is missing does
 not lose its data

The index was created, empty, before the data was scanned: the scan found it and
returned nothing, and the converted segment was left with no data.
---
 arki/dataset/iseg/checker.cc |  7 ++++++
 arki/segment/iseg.cc         | 43 +++++++++++++++++++++++-------------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index 05ab71d..872b46d 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -126,6 +126,13 @@ public:
         invalidate_dataset_summary();
     }
 
+    void post_convert(std::shared_ptr<segment::Fixer>,
+                      segment::Fixer::ConvertResult&) override
+    {
+        // The segment has been scanned again if its index was missing
+        invalidate_dataset_summary();
+    }
+
     void index(metadata::Collection&& mds) override
     {
         auto fixer = segment_checker->fixer();
diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index bf2e71f..63c372b 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -443,12 +443,22 @@ arki::metadata::Collection Checker::scan()
     // Rescan the file
     if (data->exists_on_disk())
     {
-        auto data_reader = data->reader(lock);
-        data_reader->scan_data([&](std::shared_ptr<Metadata> md) {
+        // Make sure data can be read even if there is no index
+        auto reader = std::make_shared<segment::scan::Reader>(m_segment, lock);
+        reader->read_all([&](std::shared_ptr<Metadata> md) {
+            const auto& source = md->sourceBlob();
+            md->set_source(types::Source::createBlob(
+                segment().format(), segment().root(), segment().relpath(),
+                source.offset, source.size, reader));
             res.acquire(md);
             return true;
         });
-        return res;
+
+        // Filter out duplicates, as they cannot be indexed
+        auto unique_codes =
+            static_cast<const Session&>(segment().session()).unique;
+        unique_codes.insert(TYPE_REFTIME);
+        return res.without_duplicates(unique_codes);
     }
 
     std::stringstream buf;
@@ -676,14 +686,15 @@ Fixer::ConvertResult Fixer::tar()
     }
     res.size_pre = checker().data->size();
 
+    // Rescan file and sort for repacking. Do it before opening the index: if
+    // there is none, it would be created and found empty
+    auto mds = checker().scan();
+    mds.sort_segment();
+
     auto& index        = checker().index();
     auto data_checker  = checker().data->checker();
     auto pending_index = index.begin_transaction();
 
-    // Rescan file and sort for repacking
-    auto mds = checker().scan();
-    mds.sort_segment();
-
     // If we are interrupted, have the index found older than the data
     sys::touch(segment().abspath_iseg_index(), 1);
 
@@ -720,14 +731,15 @@ Fixer::ConvertResult Fixer::zip()
     }
     res.size_pre = checker().data->size();
 
+    // Rescan file and sort for repacking. Do it before opening the index: if
+    // there is none, it would be created and found empty
+    auto mds = checker().scan();
+    mds.sort_segment();
+
     auto& index        = checker().index();
     auto data_checker  = checker().data->checker();
     auto pending_index = index.begin_transaction();
 
-    // Rescan file and sort for repacking
-    auto mds = checker().scan();
-    mds.sort_segment();
-
     // If we are interrupted, have the index found older than the data
     sys::touch(segment().abspath_iseg_index(), 1);
 
@@ -766,14 +778,15 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     res.size_pre = checker().data->size();
 
+    // Rescan file and sort for repacking. Do it before opening the index: if
+    // there is none, it would be created and found empty
+    auto mds = checker().scan();
+    mds.sort_segment();
+
     auto& index        = checker().index();
     auto data_checker  = checker().data->checker();
     auto pending_index = index.begin_transaction();
 
-    // Rescan file and sort for repacking
-    auto mds = checker().scan();
-    mds.sort_segment();
-
     // If we are interrupted, have the index found older than the data
     sys::touch(segment().abspath_iseg_index(), 1);
 
-- 
2.43.0


From c79a25e1dbe3932d7c428a9e266d3c9218239a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 52/52] fix: tar segments do not get an extra zero block after
 data of multiples of 512 bytes

Readers of tar archives take a block of zeroes as the end of the archive, and did
not see the rest of the segment
---
 arki/segment/data/tar.cc | 2 +-
 arki/utils/tar.cc        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index 04bc621..cd4fbd5 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -89,7 +89,7 @@ struct CheckBackend : public AppendCheckBackend
 
     size_t actual_end(off_t offset, size_t size) const override
     {
-        return offset + size + 512 - (size % 512);
+        return offset + size + (512 - size % 512) % 512;
     }
 
     State check()
diff --git a/arki/utils/tar.cc b/arki/utils/tar.cc
index cb0f604..52f7fb1 100644
--- a/arki/utils/tar.cc
+++ b/arki/utils/tar.cc
@@ -117,7 +117,7 @@ void TarOutput::_write(const std::string& data)
 {
     out.write_all_or_retry(data);
     out_pos += data.size();
-    unsigned pad_len = 512 - (data.size() % 512);
+    unsigned pad_len = (512 - data.size() % 512) % 512;
     if (pad_len)
     {
         std::vector<uint8_t> pad(pad_len, 0);
@@ -130,7 +130,7 @@ void TarOutput::_write(const std::vector<uint8_t>& data)
 {
     out.write_all_or_retry(data);
     out_pos += data.size();
-    unsigned pad_len = 512 - (data.size() % 512);
+    unsigned pad_len = (512 - data.size() % 512) % 512;
     if (pad_len)
     {
         std::vector<uint8_t> pad(pad_len, 0);
-- 
2.43.0

