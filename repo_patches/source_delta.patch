From c1600ecd096db8269358c55dfe877ba6a7aa8865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 01/66] fix: stack per-node tensors in from_midi_networkx

A list of node tensors matched the first branch and was left as a plain
list, so x.dim() raised AttributeError and no graph could be built.
---
 neural_graph_composer/midi_graph_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 581c173..0266e8f 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -282,8 +282,8 @@ class MidiGraphBuilder:
                 if key not in group_node_attrs:
                     continue
                 try:
-                    if isinstance(value, (tuple, list)) and all(isinstance(v, (Tensor, np.ndarray)) for v in value):
-                        data[key] = value
+                    if isinstance(value, (tuple, list)) and all(isinstance(v, np.ndarray) for v in value):
+                        data[key] = torch.from_numpy(np.stack(value))
                     elif isinstance(value, np.ndarray):
                         data[key] = torch.from_numpy(value)
                     elif isinstance(value, (tuple, list)) and all(isinstance(v, Tensor) for v in value):
-- 
2.43.0


From ba1d0ec3732421e83d3cd29f20774731e27da6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 02/66] fix: emit every built graph from
 MidiGraphBuilder.graphs

The generator emptied the list it was iterating after the first yield, so
only the first instrument of a file was emitted, and an abandoned generator
left stale graphs that were emitted again for the next file.
---
 neural_graph_composer/midi_graph_builder.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 0266e8f..ecf4524 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1129,7 +1129,10 @@ class MidiGraphBuilder:
             for node_hash in self._hash_to_notes:
                 assert node_hash in self.hash_to_index
 
-        for g in self._pyg_data or []:
+        # a graph leaves the internal lists at the moment it is emitted.
+        while self._pyg_data:
+            g = self._pyg_data.pop(0)
+            del self._sub_graphs[:1]
             node_hash = [self._hash_to_index[node_hash] for node_hash in g.node_hash]
             target_indices = [self._hash_to_index[hash_val] for hash_val in g.node_hash]
 
@@ -1159,8 +1162,3 @@ class MidiGraphBuilder:
 
             yield g
             del g
-
-            del self._pyg_data[:]
-            del self._sub_graphs[:]
-            self._pyg_data = []
-            self._sub_graphs = []
-- 
2.43.0


From add160e52993e30fe5117059a4045b69a8b63a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 03/66] fix: collate the merged graphs before saving the merged
 dataset

data_*.pt was written from the collated per-instrument graphs.
---
 neural_graph_composer/midi_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 0b48cf9..66ebad8 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -589,6 +589,7 @@ class MidiDataset(InMemoryDataset):
             'index_to_hash': _index_to_hash,
         }
 
+        _data, _slices = self.collate(self.__data_list)
         print(f"Saving {self.processed_dir} data.pt")
         torch.save((_data, _slices, additional_data),
                    osp.join(
-- 
2.43.0


From 3eee4a49404657f0edb8a4283417463d35156f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 04/66] fix: sanity check in graphs() treats labels as the ints
 they are

label.item() raised AttributeError whenever is_sanity_check was set.
---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index ecf4524..d7268e5 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1141,7 +1141,7 @@ class MidiGraphBuilder:
 
             # reverse sanity-check
             if is_sanity_check:
-                original_labels = [self._index_to_hash[label.item()] for label in g.label]
+                original_labels = [self._index_to_hash[label] for label in g.label]
                 original_target_indices = [self._index_to_hash[index] for index in target_indices]
                 original_y_values = [self._index_to_hash[y.item()] for y in g.y]
                 original_notes = [self._hash_to_notes[h] for h in original_labels]
-- 
2.43.0


From 641730268db162f20555c7042ba11740f679f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 05/66] fix: read every sounding note whatever order the notes
 come in

read_instrument dropped a note whose end lay before the longest note already
read on the same track.
---
 neural_graph_composer/midi_reader.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index b471d36..a57d14f 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -156,23 +156,13 @@ class MidiReader(MidiBaseReader):
                     warnings.warn(f"{instrument}, note duration start and end "
                                   f"time is very close {n.start} {n.end}")
                     continue
-                # update total time
-                if not midi_seq.total_time or n.end >= midi_seq[seq_id].total_time:
-                    # update entire total for all music instruments
-                    if n.end >= midi_seq.total_time:
-                        midi_seq.total_time = n.end
-                    # update for particular instrument total time
+                # update entire total for all music instruments
+                if n.end >= midi_seq.total_time:
+                    midi_seq.total_time = n.end
+                # update for particular instrument total time
+                if n.end >= midi_seq[seq_id].total_time:
                     midi_seq[seq_id].total_time = n.end
-                    yield instrument, i, n, seq_id
-                else:
-                    logging.debug(
-                        f"Skipping instrument {instrument}: "
-                        f"note {n} end time after instrument time {midi_seq.total_time}")
-                    logging.warning(
-                        "instrument {} note pitch {} interval {}-{} vel {} "
-                        "skipped".format(instrument, n.pitch, n.start, n.end, n.velocity))
-                    logging.warning(
-                        "seq total time {}".format(midi_seq.total_time))
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_pitch_bends(
-- 
2.43.0


From 7dd2222351a7768b8e51242fa9e1171a0e21f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 06/66] fix: read pitch bends and control changes that happen
 during the piece

Only events after the end of the last note were kept.
---
 neural_graph_composer/midi_reader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index a57d14f..89e083f 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -180,8 +180,7 @@ class MidiReader(MidiBaseReader):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             # for each instrument iterate over all node and get time
             for n in instrument.pitch_bends:
-                if not midi_seq.total_time or n.time >= midi_seq.total_time:
-                    yield instrument, i, n, seq_id
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_control_changes(
@@ -198,8 +197,7 @@ class MidiReader(MidiBaseReader):
         for i, instrument in enumerate(midi_data.instruments):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             for cv in instrument.control_changes:
-                if not midi_seq.total_time or cv.time >= midi_seq.total_time:
-                    yield instrument, i, cv, seq_id
+                yield instrument, i, cv, seq_id
 
     @staticmethod
     def mido_to_pretty_midi(mido_file: mido.MidiFile) -> CustomPrettyMIDI:
-- 
2.43.0


From 557dcf6e9febfb705feecb2f53ff98417064e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 07/66] fix: visit note groups in time order when building a
 graph

---
 neural_graph_composer/midi_graph_builder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index d7268e5..3bf3b76 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -734,13 +734,13 @@ class MidiGraphBuilder:
 
             assert adjusted_time_hash >= 0, "n.start_time must be non-negative"
 
-            time_hash = hash(adjusted_time_hash)
-            if time_hash not in data:
-                data[time_hash] = []
+            # keyed by the time itself: the hash of a float does not sort in time order.
+            if adjusted_time_hash not in data:
+                data[adjusted_time_hash] = []
 
-            data[time_hash].append(n)
-            if len(data[time_hash]) > longest_note_sequence:
-                longest_note_sequence = len(data[time_hash])
+            data[adjusted_time_hash].append(n)
+            if len(data[adjusted_time_hash]) > longest_note_sequence:
+                longest_note_sequence = len(data[adjusted_time_hash])
 
         if filter_single_notes:
             # Filter out single notes
-- 
2.43.0


From cf5a9be5b36e11bef38f02e0c7ec1607eabe5a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 08/66] fix: scaling velocities of silent notes stays within
 the MIDI range

---
 neural_graph_composer/midi_graph_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 3bf3b76..5fac0ff 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -657,7 +657,8 @@ class MidiGraphBuilder:
         # the average velocity
         avg_velocity = np.mean(velocities)
         # the ratio between each note's velocity and the average velocity
-        velocity_ratios = velocities / avg_velocity
+        # (notes that are all silent have no average to relate to)
+        velocity_ratios = velocities / avg_velocity if avg_velocity != 0 else np.zeros_like(velocities)
         # scale the velocities using the scaling factor
         scaled_velocities = velocity_ratios * scaling_factor * avg_velocity
         # clip
-- 
2.43.0


From b9ece8897bb32dd8722a3d262505a5c86f01ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 09/66] fix: graph builder factories pass the velocity option
 under its own name

---
 neural_graph_composer/midi_graph_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 5fac0ff..a26ba0e 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -165,7 +165,7 @@ class MidiGraphBuilder:
             raise ValueError(f"File {file_path} does not exist.")
 
         midi_seq = MidiReader.read(file_path)
-        return cls(midi_seq, feature_size=feature_size, is_instrument_graph=is_include_velocity)
+        return cls(midi_seq, feature_size=feature_size, is_include_velocity=is_include_velocity)
 
     @classmethod
     def from_midi_sequence(cls,
@@ -189,7 +189,7 @@ class MidiGraphBuilder:
             raise ValueError("MidiNoteSequence is empty")
 
         midi_sequences = MidiNoteSequences(midi_seq=midi_sequence)
-        return cls(midi_sequences, feature_size=feature_size, is_instrument_graph=is_include_velocity)
+        return cls(midi_sequences, feature_size=feature_size, is_include_velocity=is_include_velocity)
 
     @property
     def sub_graphs(self) -> List[Graph]:
-- 
2.43.0


From b616359fdf4031fd9d13b3bbd412b022caca0d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 10/66] fix: skip files without a merged graph when processing
 the merged dataset

---
 neural_graph_composer/midi_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 66ebad8..3c8411d 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -633,7 +633,10 @@ class MidiDataset(InMemoryDataset):
                 if not graphs:
                     raise ValueError("No sub graphs found in graph builder.")
 
-                midi_data = next(graphs)
+                # a file without melodic instruments has no graph.
+                midi_data = next(graphs, None)
+                if midi_data is None:
+                    continue
 
                 self.all_classes.update(torch.unique(midi_data.y).tolist())
                 if self.pre_filter is not None and not self.pre_filter(midi_data):
-- 
2.43.0


From e072e9ac2ebc4d919967b11db226a3d842540535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 11/66] fix: the note filter is part of the processed dataset
 name

---
 neural_graph_composer/midi_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 3c8411d..e50d023 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -380,11 +380,11 @@ class MidiDataset(InMemoryDataset):
         return [f'per_instrument_'
                 f'vel_{self.include_velocity}_'
                 f'feature_size_{self.feature_vec_size}_'
-                f'tolerance_{str(self.tolerance)}.pt',
+                f'tolerance_{str(self.tolerance)}_filter_{self.filter_single_notes}.pt',
                 f'data_'
                 f'vel_{self.include_velocity}_'
                 f'feature_size_{self.feature_vec_size}_'
-                f'tolerance_{str(self.tolerance)}.pt']
+                f'tolerance_{str(self.tolerance)}_filter_{self.filter_single_notes}.pt']
 
     def compute_statistics(self):
         """
@@ -571,7 +571,7 @@ class MidiDataset(InMemoryDataset):
                             f'per_instrument_'
                             f'vel_{self.include_velocity}_'
                             f'feature_size_{self.feature_vec_size}_'
-                            f'tolerance_{str(self.tolerance)}.pt')
+                            f'tolerance_{str(self.tolerance)}_filter_{self.filter_single_notes}.pt')
                    )
         del self.__data_list
         self.__data_list = None
@@ -597,7 +597,7 @@ class MidiDataset(InMemoryDataset):
                        f'data_'
                        f'vel_{self.include_velocity}_'
                        f'feature_size_{self.feature_vec_size}_'
-                       f'tolerance_{str(self.tolerance)}.pt'
+                       f'tolerance_{str(self.tolerance)}_filter_{self.filter_single_notes}.pt'
                    ))
         del self.__data_list
         self.__data_list = None
-- 
2.43.0


From 6e185d8c7300fe1686fc589aa9dfcb106665b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 12/66] fix: interval tree uses the names of the classes that
 exist

---
 .../interval/intervaltree.py                  | 60 +++++++++----------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/neural_graph_composer/interval/intervaltree.py b/neural_graph_composer/interval/intervaltree.py
index 1596756..355d1e9 100644
--- a/neural_graph_composer/interval/intervaltree.py
+++ b/neural_graph_composer/interval/intervaltree.py
@@ -220,8 +220,8 @@ class FloatIntervalTree(MutableSet):
         Create a new IntervalTree from an iterable of 2- or 3-tuples,
          where the tuple lists begin, end, and optionally data.
         """
-        ivs = [Interval(*t) for t in tups]
-        return IntervalTree(ivs)
+        ivs = [FloatInterval(*t) for t in tups]
+        return FloatIntervalTree(ivs)
 
     def __init__(self, intervals=None):
         """
@@ -249,7 +249,7 @@ class FloatIntervalTree(MutableSet):
         Completes in O(n*log n) time.
         :rtype: IntervalTree
         """
-        return IntervalTree(iv.copy() for iv in self)
+        return FloatIntervalTree(iv.copy() for iv in self)
 
     def _add_boundaries(self, interval):
         """
@@ -342,7 +342,7 @@ class FloatIntervalTree(MutableSet):
         Shortcut for remove(Interval(begin, end, data)).
         Completes in O(log n) time.
         """
-        return self.remove(Interval(begin, end, data))
+        return self.remove(FloatInterval(begin, end, data))
 
     def discard(self, interval):
         """
@@ -361,7 +361,7 @@ class FloatIntervalTree(MutableSet):
         Shortcut for discard(Interval(begin, end, data)).
         Completes in O(log n) time.
         """
-        return self.discard(Interval(begin, end, data))
+        return self.discard(FloatInterval(begin, end, data))
 
     def difference(self, other):
         """
@@ -372,7 +372,7 @@ class FloatIntervalTree(MutableSet):
         for iv in self:
             if iv not in other:
                 ivs.add(iv)
-        return IntervalTree(ivs)
+        return FloatIntervalTree(ivs)
 
     def difference_update(self, other):
         """
@@ -386,7 +386,7 @@ class FloatIntervalTree(MutableSet):
         Returns a new tree, comprising all intervals from self
         and other.
         """
-        return IntervalTree(set(self).union(other))
+        return FloatIntervalTree(set(self).union(other))
 
     def intersection(self, other):
         """
@@ -398,7 +398,7 @@ class FloatIntervalTree(MutableSet):
         for iv in shorter:
             if iv in longer:
                 ivs.add(iv)
-        return IntervalTree(ivs)
+        return FloatIntervalTree(ivs)
 
     def intersection_update(self, other):
         """
@@ -417,7 +417,7 @@ class FloatIntervalTree(MutableSet):
         if not isinstance(other, set): other = set(other)
         me = set(self)
         ivs = me.difference(other).union(other.difference(me))
-        return IntervalTree(ivs)
+        return FloatIntervalTree(ivs)
 
     def symmetric_difference_update(self, other):
         """
@@ -467,14 +467,14 @@ class FloatIntervalTree(MutableSet):
 
         if datafunc:
             for iv in begin_hits:
-                insertions.add(Interval(iv.begin, begin, datafunc(iv, True)))
+                insertions.add(FloatInterval(iv.begin, begin, datafunc(iv, True)))
             for iv in end_hits:
-                insertions.add(Interval(end, iv.end, datafunc(iv, False)))
+                insertions.add(FloatInterval(end, iv.end, datafunc(iv, False)))
         else:
             for iv in begin_hits:
-                insertions.add(Interval(iv.begin, begin, iv.data))
+                insertions.add(FloatInterval(iv.begin, begin, iv.data))
             for iv in end_hits:
-                insertions.add(Interval(end, iv.end, iv.data))
+                insertions.add(FloatInterval(end, iv.end, iv.data))
 
         self.remove_envelop(begin, end)
         self.difference_update(begin_hits)
@@ -494,12 +494,12 @@ class FloatIntervalTree(MutableSet):
         insertions = set()
         if datafunc:
             for iv in hitlist:
-                insertions.add(Interval(iv.begin, point, datafunc(iv, True)))
-                insertions.add(Interval(point, iv.end, datafunc(iv, False)))
+                insertions.add(FloatInterval(iv.begin, point, datafunc(iv, True)))
+                insertions.add(FloatInterval(point, iv.end, datafunc(iv, False)))
         else:
             for iv in hitlist:
-                insertions.add(Interval(iv.begin, point, iv.data))
-                insertions.add(Interval(point, iv.end, iv.data))
+                insertions.add(FloatInterval(iv.begin, point, iv.data))
+                insertions.add(FloatInterval(point, iv.end, iv.data))
         self.difference_update(hitlist)
         self.update(insertions)
 
@@ -525,7 +525,7 @@ class FloatIntervalTree(MutableSet):
                     result[parent] = set()
                 result[parent].add(child)
 
-        long_ivs = sorted(self.all_intervals, key=Interval.length, reverse=True)
+        long_ivs = sorted(self.all_intervals, key=FloatInterval.length, reverse=True)
         for i, parent in enumerate(long_ivs):
             for child in long_ivs[i + 1:]:
                 add_if_nested()
@@ -593,7 +593,7 @@ class FloatIntervalTree(MutableSet):
         new_ivs = set()
         for lbound, ubound in zip(bounds[:-1], bounds[1:]):
             for iv in self[lbound]:
-                new_ivs.add(Interval(lbound, ubound, iv.data))
+                new_ivs.add(FloatInterval(lbound, ubound, iv.data))
 
         self.__init__(new_ivs)
 
@@ -638,7 +638,7 @@ class FloatIntervalTree(MutableSet):
             else:  # data_initializer is not None
                 current_reduced[0] = copy(data_initializer)
                 current_reduced[0] = data_reducer(current_reduced[0], higher.data)
-                merged.append(Interval(higher.begin, higher.end, current_reduced[0]))
+                merged.append(FloatInterval(higher.begin, higher.end, current_reduced[0]))
 
         for higher in sorted_intervals:
             if merged:  # series already begun
@@ -650,7 +650,7 @@ class FloatIntervalTree(MutableSet):
                         current_reduced[0] = data_reducer(current_reduced[0], higher.data)
                     else:  # annihilate the data, since we don't know how to merge it
                         current_reduced[0] = None
-                    merged[-1] = Interval(lower.begin, upper_bound, current_reduced[0])
+                    merged[-1] = FloatInterval(lower.begin, upper_bound, current_reduced[0])
                 else:
                     new_series()
             else:  # not merged; is first of Intervals to merge
@@ -696,7 +696,7 @@ class FloatIntervalTree(MutableSet):
             else:  # data_initializer is not None
                 current_reduced[0] = copy(data_initializer)
                 current_reduced[0] = data_reducer(current_reduced[0], higher.data)
-                merged.append(Interval(higher.begin, higher.end, current_reduced[0]))
+                merged.append(FloatInterval(higher.begin, higher.end, current_reduced[0]))
 
         for higher in sorted_intervals:
             if merged:  # series already begun
@@ -707,7 +707,7 @@ class FloatIntervalTree(MutableSet):
                         current_reduced[0] = data_reducer(current_reduced[0], higher.data)
                     else:  # annihilate the data, since we don't know how to merge it
                         current_reduced[0] = None
-                    merged[-1] = Interval(lower.begin, upper_bound, current_reduced[0])
+                    merged[-1] = FloatInterval(lower.begin, upper_bound, current_reduced[0])
                 else:
                     new_series()
             else:  # not merged; is first of Intervals to merge
@@ -763,7 +763,7 @@ class FloatIntervalTree(MutableSet):
             else:  # data_initializer is not None
                 current_reduced[0] = copy(data_initializer)
                 current_reduced[0] = data_reducer(current_reduced[0], higher.data)
-                merged.append(Interval(higher.begin, higher.end, current_reduced[0]))
+                merged.append(FloatInterval(higher.begin, higher.end, current_reduced[0]))
 
         for higher in sorted_intervals:
             if merged:  # series already begun
@@ -779,7 +779,7 @@ class FloatIntervalTree(MutableSet):
                             current_reduced[0] = data_reducer(current_reduced[0], higher.data)
                         else:  # annihilate the data, since we don't know how to merge it
                             current_reduced[0] = None
-                        merged[-1] = Interval(lower.begin, upper_bound, current_reduced[0])
+                        merged[-1] = FloatInterval(lower.begin, upper_bound, current_reduced[0])
                 else:
                     new_series()
             else:  # not merged; is first of Intervals to merge
@@ -902,7 +902,7 @@ class FloatIntervalTree(MutableSet):
         null Interval.
         :rtype: Interval
         """
-        return Interval(self.begin(), self.end())
+        return FloatInterval(self.begin(), self.end())
 
     def span(self):
         """
@@ -956,7 +956,7 @@ class FloatIntervalTree(MutableSet):
 
             ## All members are Intervals
             for iv in self:
-                assert isinstance(iv, Interval), (
+                assert isinstance(iv, FloatInterval), (
                     "Error: Only Interval objects allowed in IntervalTree:"
                     " {0}".format(iv)
                 )
@@ -1096,7 +1096,7 @@ class FloatIntervalTree(MutableSet):
         Completes in O(1) time.
         :rtype: bool
         """
-        return Interval(begin, end, data) in self
+        return FloatInterval(begin, end, data) in self
 
     def __iter__(self):
         """
@@ -1122,7 +1122,7 @@ class FloatIntervalTree(MutableSet):
         :rtype: bool
         """
         return (
-            isinstance(other, IntervalTree) and
+            isinstance(other, FloatIntervalTree) and
             self.all_intervals == other.all_intervals
         )
 
@@ -1143,4 +1143,4 @@ class FloatIntervalTree(MutableSet):
         For pickle-ing.
         :rtype: tuple
         """
-        return IntervalTree, (sorted(self.all_intervals),)
+        return FloatIntervalTree, (sorted(self.all_intervals),)
-- 
2.43.0


From 2dfb148f5f51bd7d338bf42229bf1b9246da4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 13/66] fix: interval tree compares bounds by order so that it
 finds and removes what it holds

---
 neural_graph_composer/interval/interval.py |  6 +++---
 neural_graph_composer/interval/node.py     | 14 ++++++--------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/neural_graph_composer/interval/interval.py b/neural_graph_composer/interval/interval.py
index 7f8551b..2d22063 100644
--- a/neural_graph_composer/interval/interval.py
+++ b/neural_graph_composer/interval/interval.py
@@ -50,7 +50,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         if end is not None:
-            return math.isclose(begin, self.end) and end > self.begin
+            return begin < self.end and end > self.begin
         try:
             return self.overlaps(begin.begin, begin.end)
         except:
@@ -83,7 +83,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :return: True or False
         :rtype: bool
         """
-        return math.isclose(self.begin, p) and math.isclose(p, self.end)
+        return self.begin <= p < self.end
 
     def range_matches(self, other):
         """Whether the begins equal and the ends equal. Compare __eq__().
@@ -234,7 +234,7 @@ class FloatInterval(namedtuple('IntervalBase', ['begin', 'end', 'data'])):
         :rtype: bool
         """
         self._raise_if_null(other)
-        return math.isclose(self.end, getattr(other, 'end', other))
+        return self.end <= getattr(other, 'end', other)
 
     def gt(self, other):
         """Strictly greater than. Returns True if no part of this Interval
diff --git a/neural_graph_composer/interval/node.py b/neural_graph_composer/interval/node.py
index 650d026..8a51be5 100644
--- a/neural_graph_composer/interval/node.py
+++ b/neural_graph_composer/interval/node.py
@@ -28,7 +28,6 @@ Mustafa Bayramov.
 mbayramo@stanford.edu
 spyroot@gmail.com
 """
-import math
 from operator import attrgetter
 from math import floor, log
 from neural_graph_composer.interval import FloatInterval
@@ -107,10 +106,9 @@ class Node(object):
         s_left = []
         s_right = []
         for k in intervals:
-            math.isclose(k.end, self.x_center)
             if k.begin > self.x_center:
                 s_right.append(k)
-            elif math.isclose(k.end, self.x_center):
+            elif k.end <= self.x_center:
                 s_left.append(k)
             else:
                 self.s_center.add(k)
@@ -322,9 +320,9 @@ class Node(object):
         Returns all intervals that contain point.
         """
         for k in self.s_center:
-            if point.isclose(k.begin) and point.isclose(k.end):
+            if k.begin <= point < k.end:
                 result.add(k)
-        if point.isclose(self.x_center) and self[0]:
+        if point < self.x_center and self[0]:
             return self[0].search_point(point, result)
         elif point > self.x_center and self[1]:
             return self[1].search_point(point, result)
@@ -480,7 +478,7 @@ class Node(object):
         assert (isinstance(self.s_center, set))
 
         bal = self.balance
-        assert math.isclose(abs(bal), 2.0), \
+        assert abs(bal) < 2, \
             "Error: Rotation should have happened, but didn't! \n{}".format(
                 self.print_structure(tostring=True)
             )
@@ -497,7 +495,7 @@ class Node(object):
         for iv in self.s_center:
             assert hasattr(iv, 'begin')
             assert hasattr(iv, 'end')
-            assert math.isclose(iv.begin < iv.end)
+            assert iv.begin < iv.end
             assert iv.overlaps(self.x_center)
             for parent in sorted(parents):
                 assert not iv.contains_point(parent), \
@@ -505,7 +503,7 @@ class Node(object):
                         parent, iv, self.print_structure(tostring=True)
                     )
         if self[0]:
-            assert math.isclose(self[0].x_center, self.x_center), \
+            assert self[0].x_center < self.x_center, \
                 "Error: Out-of-order left child! {}".format(self.x_center)
             self[0].verify(parents.union([self.x_center]))
         if self[1]:
-- 
2.43.0


From 16154626896723660822d68b0f9877538e4f5e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 14/66] fix: splitting a sequence hands every note to the part
 it starts in

---
 neural_graph_composer/midi/midi_sequence.py | 26 ++++++++++-----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d4b067f..cb5bc6a 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -450,8 +450,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
         for split_point in num_splits:
             # update list of notes in current span
-            while notes_in_span and notes_in_span[0].end_time <= split_point:
-                notes_in_span.pop(0)
+            notes_in_span = [n for n in notes_in_span if n.end_time > split_point]
 
             # append notes that cross the split point to the list of notes in current span
             while seq_sorted_by_time and seq_sorted_by_time[0].start_time < split_point:
@@ -459,10 +458,10 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 if note.end_time > split_point:
                     notes_in_span.append(note)
 
-                # append split point to intervals if it's not on a boundary
-                # or if there are no notes in the current span
-                if not (skip_boundary and notes_in_span):
-                    intervals.append(split_point)
+            # append split point to intervals if it's not on a boundary
+            # or if there are no notes in the current span
+            if not (skip_boundary and notes_in_span):
+                intervals.append(split_point)
 
         return intervals
 
@@ -495,7 +494,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         if len(intervals) <= 1:
             return []
 
-        return MidiNoteSequence.extract_notes(intervals)
+        return self.extract(intervals)
 
     def shift_times(self, offset: float) -> None:
         """In place shifts the start and end times by offset
@@ -527,7 +526,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 f"Split container time pass the total {self.total_time}. "
                 "extract subsequence past end of sequence.")
 
-        sub_sequences = [MidiNoteSequence() for _ in range(len(split_times) - 1)]
+        sub_sequences = [MidiNoteSequence(instrument=self.instrument, resolution=self.resolution)
+                         for _ in range(len(split_times) - 1)]
         for sub_seq in sub_sequences:
             sub_seq.total_time = 0.0
 
@@ -541,12 +541,10 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 break
 
             sub_seq = sub_sequences[sbs]
-            sub_seq.notes.append(copy.deepcopy(note))
-            sub_seq.notes[-1].start_time -= split_times[sbs]
-            sub_seq.notes[-1].end_time = min(note.end_time, split_times[sbs + 1]) - split_times[sbs]
-            sub_seq.notes[-1].end_time = min(sub_seq.notes[-1].end_time,
-                                             sub_seq.total_time + sub_seq.notes[-1].start_time)
-            sub_seq.total_time = sub_seq.notes[-1].end_time + sub_seq.notes[-1].start_time
+            new_note = copy.deepcopy(note)
+            new_note.start_time -= split_times[sbs]
+            new_note.end_time = min(note.end_time, split_times[sbs + 1]) - split_times[sbs]
+            sub_seq.append(new_note)
 
         return sub_sequences
 
-- 
2.43.0


From f6786ba97049e9645b2e2b3a6865ba42eac12b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 15/66] fix: an interval can be deleted from the sorted
 interval dictionary

---
 neural_graph_composer/midi/sorted_interval_dict.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/sorted_interval_dict.py b/neural_graph_composer/midi/sorted_interval_dict.py
index df88e6c..5573228 100644
--- a/neural_graph_composer/midi/sorted_interval_dict.py
+++ b/neural_graph_composer/midi/sorted_interval_dict.py
@@ -42,11 +42,7 @@ class SortedIntervalDict(collections.abc.MutableMapping):
         :return:
         """
         if isinstance(key, Interval):
-            for i, (k, v) in enumerate(self._items):
-                if k == key:
-                    del self._items[i]
-                    return
-            raise KeyError(key)
+            del self._dict[key]
         elif isinstance(key, slice):
             for k in list(self.keys())[key]:
                 del self[k]
-- 
2.43.0


From a783975883b4271f5436ff026d73e52b6399c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 16/66] fix: as_note_seq leaves the order of the notes alone

---
 neural_graph_composer/midi/midi_sequence.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index cb5bc6a..008a47a 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -350,8 +350,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         :return: list of ints
         """
         if self.notes:
-            self.notes.sort(key=lambda n: n.start_time)
-            return [n.pitch for n in self.notes]
+            return [n.pitch for n in sorted(self.notes, key=lambda n: n.start_time)]
         return []
 
     def add_note(self, note: MidiNote) -> None:
-- 
2.43.0


From fbba22dbe3aece5251593a4ca4e22a70e9a5960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 17/66] fix: a sorted dictionary can be created from items and
 cleared

---
 neural_graph_composer/midi/sorted_dict.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index c6abd3d..0d23fc4 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -31,8 +31,8 @@ class SortedDict(collections.OrderedDict):
     """
 
     def __init__(self, *args, **kwargs):
+        self._keys = []
         super().__init__(*args, **kwargs)
-        self._keys = sorted(super().keys())
 
     def __setitem__(self, key, value):
         """Set the value of a key.
@@ -62,11 +62,18 @@ class SortedDict(collections.OrderedDict):
         super().__delitem__(key)
         self._keys.remove(key)
 
+    def clear(self):
+        """Remove all keys and values.
+        :return:
+        """
+        super().clear()
+        self._keys.clear()
+
     def keys(self):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
         """
-        return self._keys
+        return list(self._keys)
 
     def values(self):
         """Return a list of values corresponding to the keys sorted in ascending order.
-- 
2.43.0


From b1d3328ea4605b6b3b2f4602e49e69aecf16a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 18/66] fix: signature lookups return the signature in force,
 lists are kept in order of time

---
 neural_graph_composer/midi/midi_sequences.py | 24 ++++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a8e9029..9b3cb94 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -146,19 +146,19 @@ class MidiNoteSequences:
         if time_signatures is None:
             self.time_signatures = []
         else:
-            self.time_signatures = time_signatures
+            self.time_signatures = sorted(time_signatures, key=lambda k: k.midi_time)
 
         # list of key signature changes
         if key_signatures is None:
             self.key_signatures = []
         else:
-            self.key_signatures = key_signatures
+            self.key_signatures = sorted(key_signatures, key=lambda k: k.midi_time)
 
         # list of key signature changes
         if tempo_signatures is None:
             self.tempo_signatures = []
         else:
-            self.tempo_signatures = tempo_signatures
+            self.tempo_signatures = sorted(tempo_signatures, key=lambda k: k.midi_time)
         #
         self.resolution = resolution
 
@@ -352,14 +352,14 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding time signature {v}")
 
-        v.seq = self.time_signatures[-1].seq + 1
+        v.seq = self.time_signatures[-1].seq + 1 if self.time_signatures else 0
 
         # replace default
         if len(self.time_signatures) >= 1 and self.is_close_to_zero(
                 self.time_signatures[0].midi_time, v.midi_time):
             self.time_signatures[0] = v
         else:
-            bisect.insort_left(self.time_signatures, v, key=lambda k: k)
+            bisect.insort_right(self.time_signatures, v, key=lambda k: k.midi_time)
 
         self.time_signature.cache_clear()
 
@@ -374,7 +374,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding key signature {v}")
 
-        v.seq = self.key_signatures[-1].seq + 1
+        v.seq = self.key_signatures[-1].seq + 1 if self.key_signatures else 0
 
         # replace default
         if len(self.key_signatures) >= 1 and self.is_close_to_zero(
@@ -385,7 +385,7 @@ class MidiNoteSequences:
             if self.time_signatures and v.midi_time > self.time_signatures[-1].midi_time:
                 self._last_key_midi_seq_num += 1
 
-            bisect.insort_left(self.key_signatures, v, key=lambda k: k)
+            bisect.insort_right(self.key_signatures, v, key=lambda k: k.midi_time)
 
             # bisect.insort_left(
             #     bisect.insort_left(self.time_signatures, v, key=lambda k: k)
@@ -404,13 +404,13 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding tempo a signature {v}")
 
-        v.seq = self.tempo_signatures[-1].seq + 1
+        v.seq = self.tempo_signatures[-1].seq + 1 if self.tempo_signatures else 0
 
         if len(self.tempo_signatures) >= 1 and self.is_close_to_zero(
                 self.tempo_signatures[0].midi_time, v.midi_time):
             self.tempo_signatures[0] = v
         else:
-            bisect.insort_left(self.tempo_signatures, v, key=lambda k: k)
+            bisect.insort_right(self.tempo_signatures, v, key=lambda k: k.midi_time)
 
         self.tempo_signature.cache_clear()
 
@@ -581,7 +581,7 @@ class MidiNoteSequences:
         if self.time_signatures is None or len(self.time_signatures) == 0:
             return 4, 4
 
-        i = bisect_right(self.time_signatures, MidiTimeSignature(midi_time=start_time)) - 1
+        i = max(0, bisect_right(self.time_signatures, start_time, key=lambda k: k.midi_time) - 1)
         return self.time_signatures[i].numerator, self.time_signatures[i].denominator
 
     @cache
@@ -598,7 +598,7 @@ class MidiNoteSequences:
         if self.tempo_signature is None or len(self.tempo_signatures) == 0:
             return DEFAULT_PPQ, DEFAULT_QPM
 
-        i = bisect_right(self.tempo_signatures, MidiTempoSignature(midi_time=start_time)) - 1
+        i = max(0, bisect_right(self.tempo_signatures, start_time, key=lambda k: k.midi_time) - 1)
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
 
     @cache
@@ -609,7 +609,7 @@ class MidiNoteSequences:
         """
         if self.key_signatures is None or len(self.key_signatures) == 0:
             return 0, 0
-        i = bisect_right(self.key_signatures, MidiKeySignature(midi_time=start_time)) - 1
+        i = max(0, bisect_right(self.key_signatures, start_time, key=lambda k: k.midi_time) - 1)
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
     @property
-- 
2.43.0


From d6e64e0acfcf512873de3b8d421be0e0d2ba0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 19/66] fix: tempo and end time lookups are not cached past
 changes

---
 neural_graph_composer/midi/midi_sequence.py  | 3 ---
 neural_graph_composer/midi/midi_sequences.py | 1 -
 2 files changed, 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 008a47a..073a45c 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -20,7 +20,6 @@ import copy
 import itertools
 import logging
 import math
-from functools import cache
 from typing import Optional, List, Any, Union
 
 import numpy as np
@@ -635,7 +634,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         self._quantize(sps, amount)
 
-    @cache
     def initial_tempo(self) -> float:
         """Initial temp for this seq.
         :return:
@@ -647,7 +645,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             if seq_tempo.midi_time == 0:
                 return seq_tempo.midi_time
 
-    @cache
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
         `total_time + offset`.
diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 9b3cb94..50c3c87 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -306,7 +306,6 @@ class MidiNoteSequences:
                            self.__midi_tracks.values())) if self.__midi_tracks is not None else 0
         return 0
 
-    @cache
     def initial_tempo(self):
         """Return the initial tempo of the MIDI sequence, defined as the tempo
         signature with the earliest MIDI time. If there are no tempo signatures
-- 
2.43.0


From 2cc20721e0eab430a91944685e88ffd9466f020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 20/66] fix: initial tempo of a sequence is a tempo, not a time

---
 neural_graph_composer/midi/midi_sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 073a45c..80928ad 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -643,7 +643,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
         for seq_tempo in self.tempo_signature:
             if seq_tempo.midi_time == 0:
-                return seq_tempo.midi_time
+                return seq_tempo.qpm
+        return self.tempo_signature[0].qpm
 
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
-- 
2.43.0


From 9ce846623c696513bff89c650f4b02c527722a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 21/66] fix: a cloned sequence keeps its drum events, tempo
 signatures and program

---
 neural_graph_composer/midi/midi_sequence.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 80928ad..b69477c 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -660,16 +660,12 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
     def clone(self):
         """Return a clone of this object """
-        cloned = MidiNoteSequence()
+        cloned = self.clone_empty()
         cloned._notes = copy.deepcopy(self._notes)
+        cloned._drum_events = copy.deepcopy(self._drum_events)
         cloned.control_changes = copy.deepcopy(self.control_changes)
         cloned.pitch_bends = copy.deepcopy(self.pitch_bends)
-        cloned.total_time = self.total_time
-        cloned.ticks_per_quarter = self.ticks_per_quarter
-        cloned.__total_quantized_steps = self.__total_quantized_steps
-        cloned.quantized_step = self.quantized_step
-        cloned.instrument = self.instrument
-        cloned.resolution = self.resolution
+        cloned.tempo_signature = copy.deepcopy(self.tempo_signature)
         return cloned
 
     def clone_empty(self):
@@ -681,6 +677,9 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         cloned.ticks_per_quarter = self.ticks_per_quarter
         cloned.__total_quantized_steps = self.__total_quantized_steps
         cloned.quantized_step = self.quantized_step
+        cloned.__steps_per_quarter = self.__steps_per_quarter
+        cloned._steps_per_second = self._steps_per_second
+        cloned.program = self.program
         cloned.instrument = self.instrument
         cloned.resolution = self.resolution
         return cloned
-- 
2.43.0


From 957637b4f7737152d8b4a2c46adc5990fa1667af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 22/66] fix: slicing a sequence keeps its own, clipped notes

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index b69477c..997a7ba 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -575,7 +575,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
             new_note = copy.deepcopy(note)
             new_note.end_time = min(note.end_time, end)
-            new_midi_seq.add_note(note)
+            new_midi_seq.add_note(new_note)
 
         # update total time based on
         new_midi_seq.total_time = min(self.total_time, end)
-- 
2.43.0


From 02ad40273a01f553313cc668dfb813538eefb29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 23/66] fix: sequences of one instrument can be added together

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 997a7ba..4944e2a 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -214,8 +214,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             raise ValueError("Instrument must be the same for both MidiNoteSequences.")
 
         # all notes in both sequences have the same instrument
-        if any(note.instrument != self.instrument for note in self.notes) \
-                or any(note.instrument != other.instrument for note in other.notes):
+        if any(note.instrument != self.instrument.instrument_num for note in self.notes) \
+                or any(note.instrument != other.instrument.instrument_num for note in other.notes):
             raise ValueError("All notes in both sequences must have the same instrument")
 
         midi_seq = MidiNoteSequence(instrument=self.instrument)
-- 
2.43.0


From e931c9eea189a40fe9851ffdac52c07c3d228ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 24/66] fix: appending an empty list to a sequence leaves it
 unchanged

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 4944e2a..202c877 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -323,7 +323,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.total_time = max(self.total_time, note.end_time)
         elif isinstance(note, list):
             self.notes.extend(note)
-            max_end_time = max(note, key=lambda n: n.end_time).end_time
+            max_end_time = max((n.end_time for n in note), default=0.0)
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("note must be a MidiNote object or a list of MidiNote objects")
@@ -338,7 +338,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.total_time = max(self.total_time, notes.end_time)
         elif isinstance(notes, list):
             self.notes.extend(notes)
-            max_end_time = max(notes, key=lambda n: n.end_time).end_time
+            max_end_time = max((n.end_time for n in notes), default=0.0)
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("notes must be a MidiNote object or a list of MidiNote objects")
-- 
2.43.0


From b5aaa3beb3dcb2f81b1de851a2614cb5cacfb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 25/66] fix: a cut sequence covers all of its notes and may be
 empty

---
 neural_graph_composer/midi/midi_sequence.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 202c877..8396bf1 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -776,7 +776,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         truncated_notes = self.notes[:cut_size]
         truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes)
-        truncated_seq.total_time = min(self.total_time, truncated_notes[-1].end_time)
         return truncated_seq
 
     def to_midi_file(self, file_path: str, callback=save_midi_callback) -> None:
-- 
2.43.0


From 1816f597d31348bdcea8c6324ee510b2c545406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 26/66] fix: drum events given to a sequence are kept

---
 neural_graph_composer/midi/midi_sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 8396bf1..bb3ef12 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -112,6 +112,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
         self._notes = [] if notes is None else [n for n in notes if not self.instrument.is_drum]
         self._drum_events = [] if notes is None else [n for n in notes if self.instrument.is_drum]
+        if drum_events is not None:
+            self._drum_events.extend(drum_events)
         # midi seq total time
         self.__total_time = max([n.end_time for n in self.notes], default=0.0)
 
-- 
2.43.0


From a4081fc9bb53a73eaa16bcb5bf8b83f57205e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 27/66] fix: total quantized steps follow the quantized notes

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index bb3ef12..ff8a6e4 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -612,8 +612,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             quantized_note = note.quantize(sps=sps, amount=amount)
             new_notes.append(quantized_note)
             # update total_quantized_steps
-            if note.quantized_end_step > self.__total_quantized_steps:
-                self.__total_quantized_steps = note.quantized_end_step
+            if quantized_note.quantized_end_step > self.__total_quantized_steps:
+                self.__total_quantized_steps = quantized_note.quantized_end_step
 
         new_control_changes = []
         #  quantize control changes and text annotations.
-- 
2.43.0


From b6d926d32d8bdf70535049ff4a8f0e1556665f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 28/66] fix: a track stored under an index is found under that
 index

---
 neural_graph_composer/midi/midi_sequences.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 50c3c87..2ff874b 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -211,7 +211,7 @@ class MidiNoteSequences:
             self._instrument_to_idx = {}
 
         if track_idx not in self._track_to_idx:
-            internal_idx = len(self.__midi_seqs)
+            internal_idx = track_idx
             instrument = MidiInstrumentInfo(
                 instrument=track_idx,
                 name=f"Instrument {0}",
@@ -250,6 +250,7 @@ class MidiNoteSequences:
             self.__midi_seqs[track_idx] = MidiNoteSequence.from_notes(notes=value)
         else:
             raise TypeError("value must be a MidiNoteSequence or a list of MidiNotes")
+        self._track_to_idx[track_idx] = track_idx
 
     def __len__(self) -> int:
         """Return len of midi_seq.
@@ -772,8 +773,7 @@ class MidiNoteSequences:
     def set_sequence(self, track_idx: int, sequence: Union[List[MidiNote], MidiNoteSequence]) -> None:
         """Set the MidiNoteSequence for the given track index."""
         if not isinstance(sequence, MidiNoteSequence):
-            sequence = MidiNoteSequence(resolution=self.resolution, is_debug=self.is_debug)
-            sequence.midi_notes = sequence.midi_notes + sequence
+            sequence = MidiNoteSequence(notes=sequence, resolution=self.resolution, is_debug=self.is_debug)
 
-        self.__midi_seqs[track_idx] = sequence
+        self[track_idx] = sequence
 
-- 
2.43.0


From 9f001137099779de322258aa6b36228cbf6145b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 29/66] fix: striking a note does not end the other sounding
 notes

---
 neural_graph_composer/custom_pretty_midi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 086da07..84805a2 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -271,8 +271,11 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         notes_to_remove = []
 
         for k, v in last_note_on.items():
-            start_tick, velocity = v[0]
             _channel, _note = k
+            # a note that is struck ends only the same note of the same channel
+            if not end_of_seq and k != (event.channel, event.note):
+                continue
+            start_tick, velocity = v[0]
             if end_tick > start_tick or end_of_seq:
                 # start we know, end is current note on event
                 start_time = self.tick_times[start_tick]
-- 
2.43.0


From 534936cbff16dade44c4cc371f59814450fe7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 30/66] fix: every note struck on the same tick is kept when it
 is ended

---
 neural_graph_composer/custom_pretty_midi.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 84805a2..626b708 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -275,15 +275,15 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             # a note that is struck ends only the same note of the same channel
             if not end_of_seq and k != (event.channel, event.note):
                 continue
-            start_tick, velocity = v[0]
-            if end_tick > start_tick or end_of_seq:
-                # start we know, end is current note on event
-                start_time = self.tick_times[start_tick]
-                end_time = self.tick_times[end_tick]
-                note = Note(velocity, _note, start_time, end_time)
-                program = current_instrument[_channel]
-                ints = __get_instrument(program, _channel, track_idx, 1)
-                ints.notes.append(note)
+            if end_tick > v[0][0] or end_of_seq:
+                for start_tick, velocity in v:
+                    # start we know, end is current note on event
+                    start_time = self.tick_times[start_tick]
+                    end_time = self.tick_times[end_tick]
+                    note = Note(velocity, _note, start_time, end_time)
+                    program = current_instrument[_channel]
+                    ints = __get_instrument(program, _channel, track_idx, 1)
+                    ints.notes.append(note)
                 # we close a note we remove it.
                 notes_to_remove.append(k)
 
-- 
2.43.0


From e1f75a90ba21eb7d4ec8d9b4c76cfaeffad93f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 31/66] fix: written tracks keep their program

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 89e083f..6c39c16 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -375,7 +375,7 @@ class MidiReader(MidiBaseReader):
 
             # create instrument
             instrument = pretty_midi.Instrument(
-                sequence[k].program, sequence[k].instrument.is_drum
+                sequence[k].instrument.instrument_num, sequence[k].instrument.is_drum
             )
             instrument.notes = notes
             instrument.pitch_bends = pitch_bends
-- 
2.43.0


From 9c4a2e44b53d59cd6f356f185d409509aef44153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 32/66] fix: writing keeps all bends and control changes up to
 the end

---
 neural_graph_composer/midi_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 6c39c16..083224b 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -317,7 +317,7 @@ class MidiReader(MidiBaseReader):
         :rtype CustomPrettyMIDI
         """
         ticks_per_quarter = sequence.resolution or DEFAULT_PPQ
-        max_event_time = sequence.truncate(to_end)
+        max_event_time = to_end
         initial_seq_tempo = sequence.initial_tempo()
 
         logging.debug(f"{initial_seq_tempo} {ticks_per_quarter} {max_event_time}")
@@ -365,13 +365,13 @@ class MidiReader(MidiBaseReader):
             pitch_bends = [
                 pretty_midi.PitchBend(sb.amount, sb.midi_time)
                 for sb in sequence[k].pitch_bends
-                if max_event_time and sb.midi_time < max_event_time
+                if max_event_time is None or sb.midi_time <= max_event_time
             ]
 
             control_changes = [
                 pretty_midi.ControlChange(cc.cc_number, cc.cc_value, cc.cc_time)
                 for cc in sequence[k].control_changes
-                if max_event_time and cc.cc_time < max_event_time]
+                if max_event_time is None or cc.cc_time <= max_event_time]
 
             # create instrument
             instrument = pretty_midi.Instrument(
-- 
2.43.0


From 2f4669ef2fec45b68c247429ff2ef199ea4b7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 33/66] fix: every tempo change is written at its own time

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 083224b..b1c2a0d 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -351,7 +351,7 @@ class MidiReader(MidiBaseReader):
             print(f"Setting scale {type(seq_tempo.midi_time)}")
             tick = pm.time_to_tick(seq_tempo.midi_time)
             pm.update_scale((tick, tick_scale))
-            pm.update_tick_time([0])
+            pm._update_tick_to_time(0)
 
         inst_infos = {}
         for i, inst_info in enumerate(sequence.instruments):
-- 
2.43.0


From 4851da57bffa71a78df990f1c30f9abbf9de5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 34/66] fix: tempo changes are sliced in order, without the
 initial tempo

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 2ff874b..11bbeae 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -475,10 +475,10 @@ class MidiNoteSequences:
         if sort_first:
             _tempo_signatures = sorted(self.tempo_signatures, key=lambda x: x.midi_time)
         else:
-            _tempo_signature = self.tempo_signature
+            _tempo_signatures = self.tempo_signatures
 
-        for sig in self.tempo_signatures:
-            if sig == self.initial_tempo or upper_bound and sig.midi_time > upper_bound:
+        for sig in _tempo_signatures:
+            if sig.midi_time == 0.0 or upper_bound is not None and sig.midi_time > upper_bound:
                 continue
             yield sig
 
-- 
2.43.0


From 413786f6305fcc1839a3bfccc71d9b5a939156e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 35/66] fix: a sequence of fewer than two notes can be written

---
 neural_graph_composer/midi_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index b1c2a0d..50eaa99 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -390,7 +390,6 @@ class MidiReader(MidiBaseReader):
             pm.adjust_times(original_times, new_times)
 
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
-                      f"estimate_tempo: {pm.estimate_tempo()} "
                       f"resolution: {pm.resolution}")
         return pm
 
-- 
2.43.0


From d6fb7ba486145887b998a06391c7a2e73ba9533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 36/66] fix: an existing file is only overwritten on request

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 50eaa99..794cb8d 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -417,7 +417,7 @@ class MidiReader(MidiBaseReader):
         if not isinstance(filename, str) or not filename:
             raise ValueError("The provided filename is invalid. It should be a non-empty string.")
 
-        if do_overwrite is False and os.path.exists(filename):
+        if not do_overwrite and os.path.exists(filename):
             raise FileExistsError(
                 f"A file with the name '{filename}' "
                 f"already exists. Aborting to avoid overwriting.")
-- 
2.43.0


From 95bd487f583e46f82e6caad0b7b468b68d8b8815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 37/66] fix: a pitch bend may have the lowest MIDI value

---
 neural_graph_composer/midi/midi_pitch_bend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_pitch_bend.py b/neural_graph_composer/midi/midi_pitch_bend.py
index f66428f..c16f8d9 100644
--- a/neural_graph_composer/midi/midi_pitch_bend.py
+++ b/neural_graph_composer/midi/midi_pitch_bend.py
@@ -23,14 +23,14 @@ class MidiPitchBend(MidiEvent):
         and bounded to particular instrument , track.
 
         MIDI Pitch Bend event. Is drum if event in drum channel
-        :param amount is amount of pitch bend. Based on MIDI it values between -8191 and 8191
+        :param amount is amount of pitch bend. Based on MIDI it values between -8192 and 8191
         :param program: midi program , default 0
         :param instrument:  midi instrument default 0
         :param midi_time: time of event.  time of event
         :param is_drum: default False
         """
-        if not (-8191 <= amount <= 8191):
-            raise ValueError("amount must be between -8191 and 8191")
+        if not (-8192 <= amount <= 8191):
+            raise ValueError("amount must be between -8192 and 8191")
         self.amount: int = amount
 
         if not (0 <= program <= 127):
@@ -58,7 +58,7 @@ class MidiPitchBend(MidiEvent):
         else:
             self.__midi_time: Optional[Union[float, np.ndarray]] = None
 
-        self.__amount: int = min(max(-8191, amount), 8191)
+        self.__amount: int = min(max(-8192, amount), 8191)
         self.__program: int = min(max(0, program), 255)
         self.__instrument: int = min(max(0, instrument), 255)
         self.__midi_time: Union[float, np.ndarray] = np.clip(midi_time, 0, np.inf) if midi_time is not None else 0.0
-- 
2.43.0


From 669af135f9a14567290c9b36db000de5009979fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 38/66] fix: the name of a note follows its pitch

---
 neural_graph_composer/midi/midi_note.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 24fd7ac..3c41a45 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -586,6 +586,7 @@ class MidiNote(MidiEvent):
     def pitch(self, value):
         assert 0 <= value <= 127, f"Pitch value {value} is outside valid MIDI range (0-127)"
         self._pitch = value
+        self.pitch_name = librosa.midi_to_note(value)
 
     @property
     def program(self):
-- 
2.43.0


From f5e2c15211e927a42ec16c1a285e07f0948b7d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 39/66] fix: a copied control change keeps its drum flag and
 quantisation step

---
 neural_graph_composer/midi/midi_control_change.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index d909fb6..6bcc3a0 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -391,6 +391,8 @@ class MidiControlChange(MidiBaseControlChange):
             if cc_time is not None else self.cc_time,
             program=self.program,
             instrument=self.instrument,
+            is_drum=self.is_drum,
+            quantized_step=self.quantized_step,
             quantized_start_step=quantized_start_step
             if quantized_start_step is not None else self.quantized_start_step,
             quantized_end_step=quantized_end_step
-- 
2.43.0


From b47434c91cb54d898fdf2b2c05b5edded3dadd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 40/66] fix: control change definitions differ exactly when
 they are not equal

---
 neural_graph_composer/midi/midi_control_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index 6bcc3a0..dc36a12 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -52,7 +52,7 @@ class MidiBaseControlChange:
         return self.cc_number < other.cc_number
 
     def __ne__(self, other):
-        return self.cc_number != other.cc_number
+        return not self == other
 
     def __repr__(self) -> str:
         return f"MidiBaseControlChange(cc_number={self.cc_number}, description='{self.description}', " \
-- 
2.43.0


From 5bf1ed1886abe11a53a29c3d316ac41698a10eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 41/66] fix: a note can be read from json without its optional
 fields

---
 neural_graph_composer/midi/midi_note.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 3c41a45..bb4dd38 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -796,11 +796,11 @@ class MidiNote(MidiEvent):
             program=json_dict["program"],
             instrument=json_dict["instrument"],
             velocity=json_dict["velocity"],
-            quantized_start_step=json_dict.get("quantized_start_step"),
-            quantized_end_step=json_dict.get("quantized_end_step"),
-            voice=json_dict.get("voice"),
-            numerator=json_dict.get("numerator"),
-            denominator=json_dict.get("denominator"),
+            quantized_start_step=json_dict.get("quantized_start_step", -1),
+            quantized_end_step=json_dict.get("quantized_end_step", -1),
+            voice=json_dict.get("voice", 0),
+            numerator=json_dict.get("numerator", 4),
+            denominator=json_dict.get("denominator", 4),
             is_drum=json_dict.get("is_drum", False)
         )
 
-- 
2.43.0


From 751c4d797cf30fe964688bb64060afca9bdcb62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 42/66] fix: a control change can be quantised

---
 neural_graph_composer/midi/midi_control_change.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index dc36a12..caa17d8 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -338,17 +338,10 @@ class MidiControlChange(MidiBaseControlChange):
         :param amount:  quantization amount.
         :return:
         """
-        self.quantized_start_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-        self.quantized_end_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-
-        self.quantized_start_step = max(self.quantized_start_step, 0)
-        assert (self.quantized_start_step >= 0)
-        assert (self.quantized_end_step >= 0)
-
-        if self.quantized_end_step == self.quantized_start_step:
-            self.quantized_end_step += 1
+        step = max(self.quantize_to_nearest_step(self.cc_time, sps, amount=amount), 0)
+        self._quantized_start_step = step
+        self._quantized_end_step = step + 1
+        self._is_quantized = True
 
         self.quantized_step = sps
 
-- 
2.43.0


From 762d75a0d5a6bee7176e721524640daa395d2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 43/66] fix: dropping nodes renumbers the edges and keeps
 labels and hashes aligned

---
 neural_graph_composer/transforms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 09d1feb..f167493 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -97,12 +97,19 @@ class RandomNodeDrop(T.BaseTransform):
 
         data.edge_index, data.edge_attr = RandomNodeDrop.filter_adj(
             data.edge_index, data.edge_attr, remain_idx, num_nodes)
+        # edges refer to the position of a node among the remaining nodes
+        position = torch.zeros(num_nodes, dtype=torch.long)
+        position[remain_idx] = torch.arange(remain_idx.shape[0])
+        data.edge_index = position[data.edge_index]
         data.x = data.x[remain_idx]
         data.y = data.y[remain_idx]
 
         data.train_mask = data.train_mask[remain_idx]
         data.val_mask = data.val_mask[remain_idx]
         data.test_mask = data.test_mask[remain_idx]
+        for name in ("label", "node_hash"):
+            if name in data:
+                data[name] = data[name][remain_idx]
         data.num_nodes = data.x.shape[0]
 
         # print(f"called return data {data}")
@@ -132,7 +139,7 @@ class RandomNodeDrop(T.BaseTransform):
         if edge_attr is not None:
             return edge_index[:, mask_all], edge_attr[mask_all]
         else:
-            return edge_index[:, mask_all]
+            return edge_index[:, mask_all], None
 
     def __repr__(self):
         """
-- 
2.43.0


From 04d4791037dacdbedf786c1d04a6ebb8f5b747f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 44/66] fix: dropping edges works on graphs without link labels
 and keeps every node attribute

---
 neural_graph_composer/transforms.py | 30 ++++++-----------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index f167493..3df62eb 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -11,6 +11,7 @@ for graph classification task.
 
 Author Mus spyroot@gmail.com
 """
+import copy
 import torch
 
 from typing import Optional, Tuple
@@ -163,31 +164,12 @@ class RandomEdgeDrop(T.BaseTransform):
         num_edges = data.edge_index.shape[1]
         mask = torch.rand(num_edges) >= self.p
 
-        edge_index = data.edge_index[:, mask]
-        edge_attr = None
+        # every other attribute is passed on as it is
+        out = copy.copy(data)
+        out.edge_index = data.edge_index[:, mask]
         if data.edge_attr is not None:
-            edge_attr = data.edge_attr[mask]
-
-        pos_edge_mask = None
-        neg_edge_mask = None
-        if data.pos_edge_label is not None and data.neg_edge_label is not None:
-            pos_edge_mask = data.pos_edge_label_index[:, mask]
-            neg_edge_mask = data.neg_edge_label_index[:, mask]
-
-        return Data(
-            x=data.x,
-            edge_index=edge_index,
-            edge_attr=edge_attr,
-            y=data.y,
-            pos_edge_label=data.pos_edge_label,
-            neg_edge_label=data.neg_edge_label,
-            train_mask=data.train_mask,
-            val_mask=data.val_mask,
-            test_mask=data.test_mask,
-            pos_edge_label_index=pos_edge_mask,
-            neg_edge_label_index=neg_edge_mask,
-            node_hash=data.node_hash
-        )
+            out.edge_attr = data.edge_attr[mask]
+        return out
 
     def __repr__(self):
         return f'{self.__class__.__name__}(p={self.p})'
-- 
2.43.0


From 0b10adfe0e0cba360a0c627640f4a7b63313012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 45/66] fix: the transforms implement forward, so that they can
 be created

---
 neural_graph_composer/transforms.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 3df62eb..2cfa070 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -35,6 +35,8 @@ class AddDegreeTransform(BaseTransform):
         data.x = torch.cat([x, degree], dim=1)
         return data
 
+    forward = __call__
+
     def __repr__(self):
         return f'{self.__class__.__name__}()'
 
@@ -70,6 +72,8 @@ class GraphIDTransform(BaseTransform):
         data.graph_id = torch.tensor(graph_id, dtype=torch.long)
         return data
 
+    forward = __call__
+
     def __repr__(self):
         return f'{self.__class__.__name__}()'
 
@@ -116,6 +120,8 @@ class RandomNodeDrop(T.BaseTransform):
         # print(f"called return data {data}")
         return data
 
+    forward = __call__
+
     @staticmethod
     def filter_adj(
             edge_index: torch.Tensor,
@@ -171,6 +177,8 @@ class RandomEdgeDrop(T.BaseTransform):
             out.edge_attr = data.edge_attr[mask]
         return out
 
+    forward = __call__
+
     def __repr__(self):
         return f'{self.__class__.__name__}(p={self.p})'
 
-- 
2.43.0


From 5003875bd17a34a89b2a26d4cda216b74e16f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 46/66] fix: metrics are saved under their own names with their
 own values

---
 ngc_shared.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 31c1de0..49463c5 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -297,10 +297,10 @@ class Experiments:
 
         if self.save_metrics and self.metrics_rate and self.current_epoch % self.metrics_rate == 0:
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls,
+                'test_accs': self.test_accs,
+                'test_f1s': self.test_f1s,
+                'test_precisions': self.test_precisions,
+                'test_recalls': self.test_recalls,
                 'test_aucs': self.test_aucs,
                 'test_aps': self.test_aps,
             }
@@ -344,10 +344,11 @@ class Experiments:
                 if not os.path.exists(self.metrics_dir):
                     os.makedirs(self.metrics_dir)
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls
+                'train_losses': self.train_losses,
+                'train_accs': self.train_accs,
+                'train_f1s': self.train_f1s,
+                'train_precisions': self.train_precisions,
+                'train_recalls': self.train_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_train_metrics.pt")
             torch.save(metrics, filename)
@@ -372,6 +373,9 @@ class Experiments:
                 'val_precisions': self.val_precisions,
                 'val_recalls': self.val_recalls
             }
+            if self.metrics_dir:
+                if not os.path.exists(self.metrics_dir):
+                    os.makedirs(self.metrics_dir)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_validation_metrics.pt")
             torch.save(metrics, filename)
 
-- 
2.43.0


From 67364903dd11f8b4037af46439f872f13d989a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 47/66] fix: the dataset keeps its own list of file names

---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index e50d023..19afe9b 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -205,7 +205,7 @@ class MidiDataset(InMemoryDataset):
         # list offline files.
         self.files = []
         if midi_files is not None:
-            self.files = midi_files
+            self.files = list(midi_files)
             self._offline = True
 
         self._remove_label = remove_label
-- 
2.43.0


From 8613b6448787eb74a12beafed9cb13eee1528332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 48/66] fix: saved metrics are found and loaded with the
 checkpoint

---
 ngc_shared.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 49463c5..1a71c98 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -225,7 +225,8 @@ class Experiments:
             return
 
         checkpoint_files = glob.glob(os.path.join(checkpoint_dir, "*.pt"))
-        metrics_files = sorted(glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt")))
+        metrics_files = sorted(
+            os.path.basename(f) for f in glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt")))
         if not checkpoint_files:
             print("No checkpoints found.")
             return
@@ -261,6 +262,8 @@ class Experiments:
             self.test_f1s = test_metrics["test_f1s"]
             self.test_precisions = test_metrics["test_precisions"]
             self.test_recalls = test_metrics["test_recalls"]
+            self.test_aucs = test_metrics["test_aucs"]
+            self.test_aps = test_metrics["test_aps"]
 
         print(f"Loaded checkpoint from {checkpoint_path}.")
 
-- 
2.43.0


From 64d4285d1803b35fbd71590b00e4e68953f6503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 49/66] fix: MidiTempoSignature.average_qpm is not cached: it
 takes a list (unhashable) and reads mutable state

---
 neural_graph_composer/midi/midi_time_signature.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_time_signature.py b/neural_graph_composer/midi/midi_time_signature.py
index 9e3be73..fa3d017 100644
--- a/neural_graph_composer/midi/midi_time_signature.py
+++ b/neural_graph_composer/midi/midi_time_signature.py
@@ -7,7 +7,6 @@ Mus spyroot@gmail.com
 """
 import logging
 import math
-from functools import cache
 from typing import Optional
 
 from .midi_seq import MidiSeq
@@ -81,7 +80,6 @@ class MidiTempoSignature(MidiSeq):
         """
         self._qpm = value
 
-    @cache
     def average_qpm(self, total_time, tempo_signature):
         """Compute the quarter notes per minute (QPM) based on the tempo signature
           events in the MIDI sequence.
-- 
2.43.0


From 633af1c1c218baf9520414fa960c201a52030965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 50/66] fix: pop, popitem and copies of a sorted dictionary
 keep its keys in step

---
 neural_graph_composer/midi/sorted_dict.py | 30 +++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index 0d23fc4..d8be757 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -69,6 +69,36 @@ class SortedDict(collections.OrderedDict):
         super().clear()
         self._keys.clear()
 
+    __marker = object()
+
+    def pop(self, key, default=__marker):
+        """Remove a key and return its value, or default if given and the key is absent.
+        :param key: The key to remove
+        :return: The value stored under the key
+        """
+        if key in self:
+            value = self[key]
+            del self[key]
+            return value
+        if default is self.__marker:
+            raise KeyError(key)
+        return default
+
+    def popitem(self, last=True):
+        """Remove and return the (key, value) pair with the largest key, or smallest if last is False.
+        :param last: Take the largest key
+        :return: The removed pair
+        """
+        if not self._keys:
+            raise KeyError("dictionary is empty")
+        key = self._keys[-1 if last else 0]
+        return key, self.pop(key)
+
+    def __reduce__(self):
+        """The keys are rebuilt from the items when a copy is made."""
+        state = {k: v for k, v in vars(self).items() if k != "_keys"}
+        return self.__class__, (), state or None, None, iter(self.items())
+
     def keys(self):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
-- 
2.43.0


From 99516effacc4d533b781e3adc28913eceb46a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 51/66] fix: a diminished seventh is nine semitones and an
 augmented seventh chord has a raised fifth in every table

---
 neural_graph_composer/midi/midi_scales.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 8f11539..3c680ec 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -90,7 +90,7 @@ class ChordIntervals(Enum):
     MinorSeven = [3, 4, 3]
     HalfDiminishedSeven = [3, 3, 4]
     DiminishedSeven = [3, 3, 3]
-    AugmentedSeven = [4, 3, 4]
+    AugmentedSeven = [4, 4, 2]
     Sixth = [4, 3, 2]
     MinorSixth = [3, 4, 2]
     Ninth = [4, 3, 3, 4]
@@ -194,7 +194,7 @@ class Interval(Enum):
     A4 = 6
     # d5 diminished fifth
     d5 = 6
-    d7 = 10
+    d7 = 9
 
     def bases(self):
         """the base intervals that make up the compound interval.
@@ -451,7 +451,7 @@ class MusicTheory:
         "m7": [3, 4, 3],
         "m7b5": [3, 3, 4],
         "dim7": [3, 3, 3],
-        "aug7": [4, 3, 4],
+        "aug7": [4, 4, 2],
         "6": [4, 3, 2],
         "m6": [3, 4, 2],
         "9": [4, 3, 3, 4],
-- 
2.43.0


From 78fd319009b5a9aaa9be317861156571a749cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 52/66] fix: the interval table has the compound intervals that
 chord formulas use

---
 neural_graph_composer/midi/midi_scales.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 3c680ec..6e4b10b 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -260,6 +260,16 @@ class MusicTheory:
         Interval.m7: 10,
         Interval.M7: 11,
         Interval.P8: 12,
+        Interval.m9: 13,
+        Interval.M9: 14,
+        Interval.m10: 15,
+        Interval.M10: 16,
+        Interval.P11: 17,
+        Interval.A11: 18,
+        Interval.P13: 19,
+        Interval.m13: 20,
+        Interval.M13: 21,
+        Interval.M14: 22,
     }
 
     # each scale and it respected intervals
-- 
2.43.0


From b8f3f745d0359394bb94fe7a389379ce884dd8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 53/66] fix: the triads of the dorian, phrygian, mixolydian and
 locrian modes have the quality their notes have

---
 neural_graph_composer/midi/midi_scales.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 6e4b10b..89d6756 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -359,12 +359,12 @@ class MusicTheory:
     chords = {
         ScaleType.MAJOR: ["M", "m", "m", "M", "M", "m", "dim"],
         ScaleType.MINOR: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.DORIAN: ["M", "m", "m", "M", "M", "dim", "m"],
-        ScaleType.PHRYGIAN: ["m", "M", "dim", "m", "m", "M", "M"],
+        ScaleType.DORIAN: ["m", "m", "M", "M", "m", "dim", "M"],
+        ScaleType.PHRYGIAN: ["m", "M", "M", "m", "dim", "M", "m"],
         ScaleType.LYDIAN: ["M", "M", "m", "dim", "M", "m", "m"],
-        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "m", "M", "m", "M"],
+        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "M", "m", "m", "M"],
         ScaleType.AEOLIAN: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "dim", "M", "m"],
+        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "M", "M", "m"],
         ScaleType.HARMONIC_MINOR: ["m", "dim", "aug", "m", "M", "M", "dim"],
         ScaleType.MELODIC_MINOR: ["m", "m", "aug", "M", "M", "dim", "dim"]
     }
-- 
2.43.0


From 9d21ef110590b08228b8fb5bae6cc5dfb68a6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 54/66] fix: ninth, eleventh and thirteenth chords reach the
 note they are named after in every table

---
 neural_graph_composer/midi/midi_scales.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 89d6756..aed9bd0 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -234,10 +234,10 @@ class MusicTheory:
         frozenset({0, 2, 7}): "sus2",
         frozenset({0, 3, 6, 9}): "dim7",
         frozenset({0, 4, 7, 9}): "6",
-        frozenset({0, 4, 7, 14}): "maj9",
-        frozenset({0, 3, 7, 14}): "m9",
+        frozenset({0, 4, 7, 11, 14}): "maj9",
+        frozenset({0, 3, 7, 10, 14}): "m9",
         frozenset({0, 4, 7, 10, 14}): "9",
-        frozenset({0, 4, 7, 10, 14, 17}): "13",
+        frozenset({0, 4, 7, 10, 14, 17, 21}): "13",
     }
 
     # note to index mapping
@@ -418,12 +418,12 @@ class MusicTheory:
         ChordType.DIMINISHED_SEVENTH: [0, 3, 6, 9],
         ChordType.HALF_DIMINISHED_SEVENTH: [0, 3, 6, 10],
         ChordType.MINOR_MAJOR_SEVENTH: [0, 3, 7, 11],
-        ChordType.ELEVENTH: [0, 4, 7, 10, 14],
-        ChordType.MAJOR_ELEVENTH: [0, 4, 7, 11, 14],
-        ChordType.MINOR_ELEVENTH: [0, 3, 7, 10, 14],
-        ChordType.THIRTEENTH: [0, 4, 7, 10, 14, 17],
-        ChordType.MAJOR_THIRTEENTH: [0, 4, 7, 11, 14, 17],
-        ChordType.MINOR_THIRTEENTH: [0, 3, 7, 10, 14, 17],
+        ChordType.ELEVENTH: [0, 4, 7, 10, 14, 17],
+        ChordType.MAJOR_ELEVENTH: [0, 4, 7, 11, 14, 17],
+        ChordType.MINOR_ELEVENTH: [0, 3, 7, 10, 14, 17],
+        ChordType.THIRTEENTH: [0, 4, 7, 10, 14, 17, 21],
+        ChordType.MAJOR_THIRTEENTH: [0, 4, 7, 11, 14, 17, 21],
+        ChordType.MINOR_THIRTEENTH: [0, 3, 7, 10, 14, 17, 21],
         ChordType.DOMINANT_NINTH: [0, 4, 7, 10, 14],
         ChordType.MAJOR_NINTH: [0, 4, 7, 11, 14],
         ChordType.MINOR_NINTH: [0, 3, 7, 10, 14],
-- 
2.43.0


From ab0b177cbb6a3cc3e6eff66f85ade48405080af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 55/66] fix: the interval name 'm3' is the minor third, not the
 major one

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index aed9bd0..06e5923 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -625,7 +625,7 @@ class MusicTheory:
         for i, interval in enumerate(interval_chord):
             # if caller pass string we convert to Enum
             if isinstance(interval, str):
-                interval = Interval[interval.upper()]
+                interval = Interval[interval] if interval in Interval.__members__ else Interval[interval.upper()]
             interval_pitch = MusicTheory.intervals[interval]
             chord_pitch = (root + interval_pitch) % 12
             _chord_pitches.append(chord_pitch)
-- 
2.43.0


From 65dd80a367ded74ce9f74fb6bd0dd87c92d95bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 56/66] fix: notes_from_scale takes the root as a number or in
 lower case, as it documents and checks

---
 neural_graph_composer/midi/midi_scales.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 06e5923..2986a46 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -712,10 +712,12 @@ class MusicTheory:
         if isinstance(root, str):
             if root.upper() not in MusicTheory.pitch_names.values():
                 raise ValueError(f"Invalid note name: {root}")
+            root_idx = MusicTheory.pitch_to_note_name[root.upper()]
         elif not (0 <= root <= 11):
             raise ValueError("root pitch parameter should be within the range [0, 11]")
+        else:
+            root_idx = root
 
-        root_idx = MusicTheory.note_names.index(root)
         intervals = MusicTheory.intervals_from_scale(scale)
         sorted_intervals = sorted(intervals, key=lambda x: MusicTheory.intervals[x])
 
-- 
2.43.0


From 01c9c07252559a5c601358328f73bb48de90e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 57/66] fix: a one-hot graph can hold the highest MIDI pitch,
 127

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index a26ba0e..de02b96 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1044,7 +1044,7 @@ class MidiGraphBuilder:
                     pitch_sub_group,
                     velocity_set=velocity,
                     feature_vec_size=feature_vec_size,
-                    num_classes=127,
+                    num_classes=128,
                     velocity_num_buckets=velocity_num_buckets
                 )
 
-- 
2.43.0


From c1741282ad62c93faf65dcd7103861100cffc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 58/66] fix: merging nodes of a directed graph keeps the edges
 that lead to them

---
 neural_graph_composer/midi_graph_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index de02b96..66e1df2 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -426,6 +426,11 @@ class MidiGraphBuilder:
             for neighbor in graph.neighbors(node):
                 if neighbor not in nodes:
                     graph.add_edge(new_node, neighbor, **graph.edges[node, neighbor])
+            # in a directed graph neighbors are only the nodes an edge leads to
+            if graph.is_directed():
+                for neighbor in graph.predecessors(node):
+                    if neighbor not in nodes:
+                        graph.add_edge(neighbor, new_node, **graph.edges[neighbor, node])
 
         # remove the original nodes from the graph
         for node in nodes:
-- 
2.43.0


From 7a1f402a4ca0edf045d64e2b47b4bbdd6cda0f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:31 +0000
Subject: [PATCH 59/66] fix: a graph builder without a feature size uses the
 default of 12

---
 neural_graph_composer/midi_graph_builder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 66e1df2..7ab7913 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -130,7 +130,6 @@ class MidiGraphBuilder:
         # this a default name that we use for node attributes
         self.node_attr_name = ["attr"]
 
-        self.feature_size = feature_size
         self.pre_instrument = is_instrument_graph
         self.midi_sequences = midi_data
 
-- 
2.43.0


From d9704fbca97fc85c6f7ed242aa0164f7cc075f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 60/66] fix: the merged variant of a dataset honours
 remove_label and do_sanity_check

---
 neural_graph_composer/midi_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 19afe9b..e670c07 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -629,7 +629,9 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=False
                 )
-                graphs = self._graph_builder.graphs()
+                graphs = self._graph_builder.graphs(
+                    is_sanity_check=self._is_sanity_check,
+                    skip_label=self._remove_label)
                 if not graphs:
                     raise ValueError("No sub graphs found in graph builder.")
 
-- 
2.43.0


From e14dcd7c1f23077b20d49b01b7e14b4cc64c3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:34 +0000
Subject: [PATCH 61/66] fix: pitch_to_freq counts semitones from A4, not from
 C4

The offset table starts at C, so every frequency was nine semitones too high:
pitch_to_freq('A', 4) gave 740 Hz where its documentation says 440.
---
 neural_graph_composer/midi/midi_note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index bb4dd38..206835c 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -753,7 +753,7 @@ class MidiNote(MidiEvent):
         >>> MusicNote.pitch_to_freq('F#', 5)
         739.988845423269
         """
-        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch]
+        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch] - PITCH_FREQUENCIES['A']
         return MidiNote.note_to_freq(REFERENCE_NOTE + semitones_above_a4)
 
     @staticmethod
-- 
2.43.0


From 0600339948cb3714ab046421cc79f787188c1853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:15 +0000
Subject: [PATCH 62/66] fix: a set of tracks asks each track whether it is
 quantized

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 11bbeae..17c2a9a 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -486,7 +486,7 @@ class MidiNoteSequences:
         """Return true if all midi sequence for each instrument quantized
         :return:
         """
-        return all(n.is_quantized for n in self.__midi_seqs.values())
+        return all(n.is_quantized() for n in self.__midi_seqs.values())
 
     def get_all_sequence_events(self) -> List[MidiEvent]:
         """Return a list of all events in the sequence.
-- 
2.43.0


From fd8e3802ff0552d8a08ef0d97d6f4f6f1d10a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:15 +0000
Subject: [PATCH 63/66] fix: trimming and truncating a set of tracks keep the
 cut tracks

---
 neural_graph_composer/midi/midi_sequences.py | 29 +++++++-------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 17c2a9a..36603cb 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -511,8 +511,8 @@ class MidiNoteSequences:
         :param event_time:
         :return:
         """
-        for k in self.__midi_seqs:
-            self.__midi_seqs[k].slice(initial_time, event_time)
+        for k in list(self.__midi_seqs):
+            self.__midi_seqs[k] = self.__midi_seqs[k].slice(initial_time, event_time)
 
     def truncate(self,
                  initial_time: Optional[float] = 0.0,
@@ -527,24 +527,15 @@ class MidiNoteSequences:
         if from_start is not None and from_start < 0:
             raise ValueError("offset must be non-negative")
 
-        if from_start is None:
-            last_event_time = max(
-                [seq_event.event_end_time for seq_event in self.get_all_sequence_events()]
-            )
-            self.trim(initial_time, last_event_time)
-            return last_event_time
-
-        last_event_time = None
-        for seq_event in self.get_all_sequence_events():
-            if seq_event.event_end_time <= from_start:
-                last_event_time = seq_event.event_end_time
-            else:
-                break
-
-        if last_event_time is not None:
-            for midi_seq in self.__midi_seqs:
-                midi_seq.trim(0.0, last_event_time)
+        end_times = [
+            seq_event.event_end_time for seq_event in self.get_all_sequence_events()
+            if from_start is None or seq_event.event_end_time <= from_start
+        ]
+        if not end_times:
+            return None
 
+        last_event_time = max(end_times)
+        self.trim(last_event_time, initial_time)
         return last_event_time
 
     @property
-- 
2.43.0


From ac0f431087e10a7547560b8704f9bb58acf10d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:44 +0000
Subject: [PATCH 64/66] fix: connect_instruments added edges to the graph while
 walking its edges

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 7ab7913..8da4240 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -455,7 +455,7 @@ class MidiGraphBuilder:
             pitch_start_to_node[pitch_start] = node
 
         # iterate over each pair of neighboring nodes from different instruments
-        for u, v in graph.edges:
+        for u, v in list(graph.edges):
             if midi_seqs[u].instrument != midi_seqs[v].instrument:
                 # check if the notes of the two neighboring nodes overlap in time
                 u_notes = [n for n in midi_seqs[u].notes if n.start_time == graph.nodes[u]["start_time"]]
-- 
2.43.0


From ffcf725c4a2394a22cf640e1b0154300da44a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:44 +0000
Subject: [PATCH 65/66] fix: difference_update of an interval tree with itself
 changed the set it was walking

---
 neural_graph_composer/interval/intervaltree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/interval/intervaltree.py b/neural_graph_composer/interval/intervaltree.py
index 355d1e9..3edcd43 100644
--- a/neural_graph_composer/interval/intervaltree.py
+++ b/neural_graph_composer/interval/intervaltree.py
@@ -378,7 +378,7 @@ class FloatIntervalTree(MutableSet):
         """
         Removes all intervals in other from self.
         """
-        for iv in other:
+        for iv in list(other):
             self.discard(iv)
 
     def union(self, other):
-- 
2.43.0


From bc93b32bc2cc8a967c6d846a8f78227358a533fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:07 +0000
Subject: [PATCH 66/66] fix: MidiNoteSequences.from_file gives the sequences
 its reader read

---
 neural_graph_composer/midi/midi_sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 36603cb..cf64b84 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -185,6 +185,10 @@ class MidiNoteSequences:
         except Exception as e:
             raise ValueError(f"Unable to load file {file_path}") from e
 
+        if isinstance(midi_data, MidiNoteSequences):
+            # readers give the sequences themselves
+            return midi_data
+
         return cls(filename=file_path, midi_seq=midi_data)
 
     def __getitem__(self, track_idx: int) -> MidiNoteSequence:
-- 
2.43.0

