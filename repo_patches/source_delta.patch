From 04e799efaeb789f9b2d4ab5beebe51033e796f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 01/53] fix: count explicitly coded zero tokens in the
 coefficient context

A block whose tokens are all zeros but that is not ended immediately is
"coded" for the context of its neighbours (and for the loop filter) in
the reference decoder.  Treating it as empty made every later token of
the frame decode wrongly.
---
 src/decoder/tokens.cc     | 4 +++-
 src/encoder/serializer.cc | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decoder/tokens.cc b/src/decoder/tokens.cc
index d4bbfc9..56e2d4e 100644
--- a/src/decoder/tokens.cc
+++ b/src/decoder/tokens.cc
@@ -73,6 +73,9 @@ void Block< initial_block_type,
       }
     }
 
+    /* an explicitly coded token counts for the context of later blocks, even if its value is zero */
+    has_nonzero_ = true;
+
     if ( not data.get( prob.at( 1 ) ) ) {
       last_was_zero = true;
       token_context = 0;
@@ -80,7 +83,6 @@ void Block< initial_block_type,
     }
 
     last_was_zero = false;
-    has_nonzero_ = true;
 
     int16_t value;
 
diff --git a/src/encoder/serializer.cc b/src/encoder/serializer.cc
index 4287568..decb2fb 100644
--- a/src/encoder/serializer.cc
+++ b/src/encoder/serializer.cc
@@ -608,6 +608,11 @@ void Block< initial_block_type,
     }
   }
 
+  /* a block that was coded as nothing but explicit zeros stays coded that way */
+  if ( has_nonzero_ and coded_length == 0 ) {
+    coded_length = 16;
+  }
+
   bool last_was_zero = false;
 
   /* prediction context starts with number-not-zero count */
@@ -727,7 +732,7 @@ void Block< initial_block_type,
     throw internal_error( "token encoder", "value too large" );
   }
 
-  assert( last_was_zero == false );
+  assert( last_was_zero == false or coded_length == 16 );
 
   /* write end of block */
   if ( coded_length < 16 ) {
-- 
2.43.0


From c69733c7fa05c39e938a4a8b3bf25952f8754e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 02/53] fix: limit the quantizer index and filter level of a
 segment

A relative segment adjustment that takes the quantizer index below zero
wrapped around to the coarsest quantizer, and the index and filter level
of a segment were not limited before further adjustments were applied.
---
 src/decoder/frame.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 3ac43e9..bdfb1bc 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -161,6 +161,9 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
               ? 0
               : segment_filter.filter_level );
 
+        /* the level of a segment is limited before the mode and reference adjustments apply */
+        segment_filter.filter_level = min( 63, max( 0, segment_filter.filter_level ) );
+
         segment_loopfilters.at( i ) = segment_filter;
       }
     }
@@ -193,10 +196,11 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
   if ( segmentation.initialized() ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
-      segment_indices.y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
+      const int segment_y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
         + ( segmentation.get().absolute_segment_adjustments
             ? static_cast<Unsigned<7>>( 0 )
             : segment_indices.y_ac_qi );
+      segment_indices.y_ac_qi = min( 127, max( 0, segment_y_ac_qi ) );
 
       segment_quantizers.at( i ) = Quantizer( segment_indices );
     }
-- 
2.43.0


From 20c1fec46c7680ce958dfcde15f631f21e772fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 03/53] fix: keep loop filter adjustments that a frame does not
 update

Each mode/reference adjustment has its own update flag and keeps its
value otherwise; the ones without an update were reset to zero.
---
 src/decoder/decoder_state.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 7740940..fe21c82 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -57,8 +57,9 @@ void FilterAdjustments::update( const HeaderType & header ) {
   /* update additional in-loop deblocking filter adjustments */
   if ( header.mode_lf_adjustments.get().initialized() ) {
     for ( unsigned int i = 0; i < loopfilter_ref_adjustments.size(); i++ ) {
-      loopfilter_ref_adjustments.at( i ) = header.mode_lf_adjustments.get().get().ref_update.at( i ).get_or( 0 );
-      loopfilter_mode_adjustments.at( i ) = header.mode_lf_adjustments.get().get().mode_update.at( i ).get_or( 0 );
+      /* an adjustment that is not updated keeps its previous value */
+      loopfilter_ref_adjustments.at( i ) = header.mode_lf_adjustments.get().get().ref_update.at( i ).get_or( loopfilter_ref_adjustments.at( i ) );
+      loopfilter_mode_adjustments.at( i ) = header.mode_lf_adjustments.get().get().mode_update.at( i ).get_or( loopfilter_mode_adjustments.at( i ) );
     }
   }
 }
-- 
2.43.0


From 9767f3661cc6a4bafe387ced3ad73242df7bb93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:03 +0000
Subject: [PATCH 04/53] fix: start the segmentation map with segment 0

Macroblocks that no frame has assigned to a segment belong to segment 0
in the reference decoder; the map was initialised with segment 3.
---
 src/decoder/decoder_state.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index fe21c82..f89fba6 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -171,7 +171,7 @@ template <class HeaderType>
 Segmentation::Segmentation( const HeaderType & header,
                             const unsigned int width,
                             const unsigned int height )
-  : map( width, height, 3 )
+  : map( width, height, 0 )
 {
   update( header );
 }
-- 
2.43.0


From 77e8f1aa313e9d01265fd56e3a422b6e0a20141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:01 +0000
Subject: [PATCH 05/53] fix: include the mode adjustments of the loop filter in
 the state hash

---
 src/decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 6f78782..b273c82 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -334,7 +334,7 @@ size_t FilterAdjustments::hash( void ) const
 
   boost::hash_range( hash_val, loopfilter_ref_adjustments.begin(), loopfilter_ref_adjustments.end() );
 
-  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_ref_adjustments.end() );
+  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_mode_adjustments.end() );
 
   return hash_val;
 }
-- 
2.43.0


From 293dfb038b0b16e54fa195841960576ccd4609a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:08 +0000
Subject: [PATCH 06/53] fix: start a new decoder from blank references

---
 src/decoder/decoder.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index b273c82..d8c7b00 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -158,8 +158,18 @@ bool Decoder::operator==( const Decoder & other ) const
   return state_ == other.state_ and references_ == other.references_;
 }
 
+/* rasters come out of the pool with whatever they were last used for */
+static MutableRasterHandle make_blank_raster( const uint16_t width, const uint16_t height )
+{
+  MutableRasterHandle raster { width, height };
+  raster.get().Y().fill( 0 );
+  raster.get().U().fill( 0 );
+  raster.get().V().fill( 0 );
+  return raster;
+}
+
 References::References( const uint16_t width, const uint16_t height )
-  : References( MutableRasterHandle( width, height ) )
+  : References( make_blank_raster( width, height ) )
 {}
 
 References::References( MutableRasterHandle && raster )
-- 
2.43.0


From d6850164934944494a476003f88f4fd55b56af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:18 +0000
Subject: [PATCH 07/53] fix: let xc-zero-out-residues rewrite frames without a
 skip probability

---
 src/encoder/encoder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 99acd88..5badcc2 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -677,7 +677,10 @@ void Macroblock<FrameHeaderType, MacroblockHeaderType>::zero_out()
       block.zero_out();
     } );
 
-  mb_skip_coeff_.reset( true );
+  /* without a skip probability in the frame header, there is no skip flag to set */
+  if ( mb_skip_coeff_.initialized() ) {
+    mb_skip_coeff_.reset( true );
+  }
 }
 
 
-- 
2.43.0


From b0a165439361759e32f9e3001069aa86efaf97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 08/53] fix: size the padded reference pictures of the encoder
 by the coded size

The padded copy of a reference was allocated by display size but filled by
coded size, writing past the end for sizes that are not multiples of 16.
---
 src/encoder/safe_references.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder/safe_references.cc b/src/encoder/safe_references.cc
index eea2699..c8e7bac 100644
--- a/src/encoder/safe_references.cc
+++ b/src/encoder/safe_references.cc
@@ -56,7 +56,7 @@ const SafeRaster & SafeReferences::get( reference_frame reference_id ) const
 
 MutableSafeRasterHandle SafeReferences::load( const VP8Raster & source )
 {
-  MutableSafeRasterHandle target( source.display_width(), source.display_height() );
+  MutableSafeRasterHandle target( source.width(), source.height() );
   target.get().copy_raster( source );
   return target;
 }
-- 
2.43.0


From 13f3865236a51a9030822ff32d7f7f2191d01ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:20 +0000
Subject: [PATCH 09/53] fix: turn segmentation off in the encoder's state with
 the frames that turn it off

---
 src/encoder/encode_inter.cc | 3 +++
 src/encoder/encoder.cc      | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index f442ad8..c123aa3 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -167,6 +167,9 @@ void Encoder::update_decoder_state( const InterFrame & frame )
   } else {
     decoder_state_.filter_adjustments.clear();
   }
+
+  /* a frame without segmentation turns it off */
+  decoder_state_.segmentation.clear();
 }
 
 Encoder::MVSearchResult Encoder::diamond_search( const VP8Raster::Macroblock & original_mb,
diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 5badcc2..7e210fe 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -469,6 +469,9 @@ void Encoder::apply_best_loopfilter_settings( const VP8Raster & original,
     frame.mutable_header().mode_lf_adjustments.get().get().mode_update.at( i ).initialize( 0 );
   }
 
+  /* the frames that get here are written without segmentation */
+  const Optional<Segmentation> no_segmentation {};
+
   uint8_t best_lf_level = 0;
   double best_ssim = -1.0;
 
@@ -493,7 +496,7 @@ void Encoder::apply_best_loopfilter_settings( const VP8Raster & original,
 
     decoder_state_.filter_adjustments.reset( frame.header() );
 
-    frame.loopfilter( decoder_state_.segmentation, decoder_state_.filter_adjustments, temp_raster() );
+    frame.loopfilter( no_segmentation, decoder_state_.filter_adjustments, temp_raster() );
 
     /* XXX This is taking too much time and is very inefficient. */
     double ssim = temp_raster().quality( original );
@@ -510,7 +513,7 @@ void Encoder::apply_best_loopfilter_settings( const VP8Raster & original,
   frame.mutable_header().loop_filter_level = best_lf_level;
   decoder_state_.filter_adjustments.reset( frame.header() );
 
-  frame.loopfilter( decoder_state_.segmentation, decoder_state_.filter_adjustments, reconstructed );
+  frame.loopfilter( no_segmentation, decoder_state_.filter_adjustments, reconstructed );
 
   encode_stats_.ssim.reset( best_ssim );
 }
-- 
2.43.0


From da9324963fcda5cc5e26a2d6a50544b3923a7b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:17 +0000
Subject: [PATCH 10/53] fix: start every encoded frame from a clean header

Frames are recycled between encodes and between encoders, and probability
updates of earlier frames stayed in their headers: copies of an encoder wrote
different frames for the same picture.
---
 src/encoder/encode_inter.cc    | 3 +++
 src/encoder/encode_intra.cc    | 3 +++
 src/encoder/size_estimation.cc | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index c123aa3..4e945b6 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -587,6 +587,9 @@ pair<InterFrame &, double> Encoder::encode_raster<InterFrame>( const VP8Raster &
 
   InterFrame & frame = inter_frame_;
 
+  /* the frame is recycled: forget what earlier frames left in its header */
+  frame.mutable_header() = InterFrameHeader( BoolDecoder::zero_decoder() );
+
   frame.mutable_header().quant_indices = quant_indices;
   frame.mutable_header().refresh_entropy_probs = true;
   frame.mutable_header().refresh_last = true;
diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index f39b785..d3f5893 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -396,6 +396,9 @@ pair<KeyFrame &, double> Encoder::encode_raster<KeyFrame>( const VP8Raster & ras
 
   KeyFrame & frame = key_frame_;
 
+  /* the frame is recycled: forget what earlier frames left in its header */
+  frame.mutable_header() = KeyFrameHeader( BoolDecoder::zero_decoder() );
+
   frame.mutable_header().quant_indices = quant_indices;
   frame.mutable_header().refresh_entropy_probs = true;
 
diff --git a/src/encoder/size_estimation.cc b/src/encoder/size_estimation.cc
index ad35d1c..b90c0b3 100644
--- a/src/encoder/size_estimation.cc
+++ b/src/encoder/size_estimation.cc
@@ -46,6 +46,9 @@ size_t Encoder::estimate_size<KeyFrame>( const VP8Raster & raster, const size_t
 
   KeyFrame & frame = subsampled_key_frame_;
 
+  /* the frame is recycled: forget what earlier frames left in its header */
+  frame.mutable_header() = KeyFrameHeader( BoolDecoder::zero_decoder() );
+
   QuantIndices quant_indices;
   quant_indices.y_ac_qi = y_ac_qi;
 
@@ -106,6 +109,9 @@ size_t Encoder::estimate_size<InterFrame>( const VP8Raster & raster, const size_
 
   InterFrame & frame = subsampled_inter_frame_;
 
+  /* the frame is recycled: forget what earlier frames left in its header */
+  frame.mutable_header() = InterFrameHeader( BoolDecoder::zero_decoder() );
+
   DecoderState decoder_state_copy = decoder_state_;
 
   QuantIndices quant_indices;
-- 
2.43.0


From 9380ad05dde7923ad171399ef85507c1735ea2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 11/53] fix: search the quantizer by the SSIM it gives

The search for a minimum SSIM compared with an SSIM that was never computed,
so it always ended at the finest quantizer, and it changed the encoder's state.
---
 src/encoder/encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 7e210fe..62c6d45 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -533,7 +533,7 @@ FrameType & Encoder::encode_with_quantizer_search( const VP8Raster & raster,
   while ( y_ac_qi_min <= y_ac_qi_max ) {
     quant_indices.y_ac_qi = ( y_ac_qi_min + y_ac_qi_max ) / 2;
 
-    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, true );
+    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, false, true );
 
     double current_ssim = encoded_frame.second;
 
-- 
2.43.0


From 57231016380b1d5d3bb7ae026fa82f1469580a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 12/53] fix: quantize the DC of subblock-predicted blocks in
 the second pass

Blocks that had a Y2 block in the first pass kept their unquantized DC.
---
 src/encoder/encode_intra.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index d3f5893..c4fc3d8 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -55,6 +55,9 @@ void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original
   frame_sb.mutable_coefficients().subtract_dct( original_sb,
     reconstructed_sb.contents() );
 
+  /* the quantization depends on the type of the block */
+  frame_sb.set_Y_without_Y2();
+
   if ( encoder_pass == FIRST_PASS ) {
     frame_sb.mutable_coefficients() = YBlock::quantize( quantizer, frame_sb.coefficients() );
   }
@@ -63,7 +66,6 @@ void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original
   }
 
   frame_sb.set_prediction_mode( sb_prediction_mode );
-  frame_sb.set_Y_without_Y2();
   frame_sb.calculate_has_nonzero();
 
   reconstructed_sb.intra_predict( sb_prediction_mode );
-- 
2.43.0


From bb1df04391ddd276972a74a8181678047e49a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 13/53] fix: refuse to re-encode inter frames that use
 segmentation

Segment ids and state were not carried over, giving a broken stream; key frames
with segmentation are refused already.
---
 src/encoder/reencode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encoder/reencode.cc b/src/encoder/reencode.cc
index f4ca8e0..128f689 100644
--- a/src/encoder/reencode.cc
+++ b/src/encoder/reencode.cc
@@ -243,6 +243,10 @@ InterFrame Encoder::update_residues( const VP8Raster & original_raster,
   const InterFrameHeader & of_header = original_frame.header();
   InterFrameHeader & if_header = frame.mutable_header();
 
+  if ( of_header.update_segmentation.initialized() ) {
+    throw Unsupported( "segmentation not supported" );
+  }
+
   if_header.update_segmentation      = of_header.update_segmentation;
   if_header.filter_type              = of_header.filter_type;
   if_header.loop_filter_level        = of_header.loop_filter_level;
-- 
2.43.0


From 6ceec897115a8ffed3c8550603f65c3a8746a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:41 +0000
Subject: [PATCH 14/53] fix: make size estimates independent of recycled
 pictures

---
 src/encoder/size_estimation.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/encoder/size_estimation.cc b/src/encoder/size_estimation.cc
index b90c0b3..4e614aa 100644
--- a/src/encoder/size_estimation.cc
+++ b/src/encoder/size_estimation.cc
@@ -60,6 +60,10 @@ size_t Encoder::estimate_size<KeyFrame>( const VP8Raster & raster, const size_t
 
   VP8Raster & reconstructed_raster = reconstructed_raster_handle.get();
 
+  /* prediction reads above and to the right of the sampled macroblocks,
+     where nothing is reconstructed */
+  reconstructed_raster.Y().fill( 0 );
+
   update_rd_multipliers( quantizer );
 
   // TokenBranchCounts token_branch_counts;
@@ -128,6 +132,10 @@ size_t Encoder::estimate_size<InterFrame>( const VP8Raster & raster, const size_
 
   VP8Raster & reconstructed_raster = reconstructed_raster_handle.get();
 
+  /* prediction reads above and to the right of the sampled macroblocks,
+     where nothing is reconstructed */
+  reconstructed_raster.Y().fill( 0 );
+
   update_rd_multipliers( quantizer );
 
   frame.mutable_macroblocks().forall_ij(
-- 
2.43.0


From 46a8a3037de3d4bb0496ed53870fa9d50ae62dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:05 +0000
Subject: [PATCH 15/53] fix: do not trust the frame count of an IVF header for
 memory

---
 src/util/ivf.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/util/ivf.cc b/src/util/ivf.cc
index 171769e..a0c43d6 100644
--- a/src/util/ivf.cc
+++ b/src/util/ivf.cc
@@ -59,8 +59,7 @@ try :
         }
 
         /* build the index */
-        frame_index_.reserve( frame_count_ );
-
+        /* the count is not reliable: the index grows with the frames that are really there */
         uint64_t position = supported_header_len;
         for ( uint32_t i = 0; i < frame_count_; i++ ) {
           Chunk frame_header = file_( position, frame_header_len );
-- 
2.43.0


From e9d8e7af20874391494ba743d4e12908802c196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:09 +0000
Subject: [PATCH 16/53] fix: reject malformed decoder state files

---
 src/decoder/decoder.cc              | 41 +++++++++++++----------------
 src/decoder/enc_state_serializer.hh | 37 +++++++++++++-------------
 src/decoder/macroblock.cc           |  5 ++++
 src/decoder/probability_tables.cc   |  7 ++---
 4 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index d8c7b00..8ece7d4 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -48,7 +48,9 @@ Decoder::Decoder( DecoderState state, References refs )
 Decoder::Decoder(EncoderStateDeserializer &idata)
   : state_(move(DecoderState::deserialize(idata)))
   , references_(move(References::deserialize(idata))) {
-  assert(idata.remaining() == 0);
+  EncoderStateDeserializer::expect(idata.remaining() == 0);
+  EncoderStateDeserializer::expect(references_.last.get().display_width() == state_.width
+                                   and references_.last.get().display_height() == state_.height);
 }
 
 size_t Decoder::serialize(EncoderStateSerializer &odata) const {
@@ -70,12 +72,10 @@ size_t Decoder::serialize(EncoderStateSerializer &odata) const {
 
 Decoder Decoder::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER);
-  (void) data_type;   // not used except in assert
+  EncoderStateDeserializer::expect(data_type == EncoderSerDesTag::DECODER);
 
   uint32_t len = idata.get<uint32_t>();
-  assert(len == idata.remaining());
-  (void) len;         // not used except in assert
+  EncoderStateDeserializer::expect(len == idata.remaining());
 
   return Decoder(idata);
 }
@@ -208,12 +208,10 @@ size_t References::serialize(EncoderStateSerializer &odata) const {
 
 References References::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::REFERENCES);
-  (void) data_type;   // unused
+  EncoderStateDeserializer::expect(data_type == EncoderSerDesTag::REFERENCES);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  EncoderStateDeserializer::expect(get_len <= idata.remaining());
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
@@ -256,11 +254,17 @@ DecoderState::DecoderState(EncoderStateDeserializer &idata, const unsigned s_wid
   EncoderSerDesTag seg_opt = idata.get_tag();
   if (seg_opt == EncoderSerDesTag::OPT_FULL) {
     segmentation = move(Segmentation::deserialize(idata));
+    EncoderStateDeserializer::expect(segmentation.get().map.width() == width
+                                     and segmentation.get().map.height() == height);
+  } else {
+    EncoderStateDeserializer::expect(seg_opt == EncoderSerDesTag::OPT_EMPTY);
   }
 
   EncoderSerDesTag filt_opt = idata.get_tag();
   if (filt_opt == EncoderSerDesTag::OPT_FULL) {
     filter_adjustments = move(FilterAdjustments::deserialize(idata));
+  } else {
+    EncoderStateDeserializer::expect(filt_opt == EncoderSerDesTag::OPT_EMPTY);
   }
 }
 
@@ -325,12 +329,10 @@ size_t DecoderState::serialize(EncoderStateSerializer &odata) const {
 
 DecoderState DecoderState::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER_STATE);
-  (void) data_type;   // unused
+  EncoderStateDeserializer::expect(data_type == EncoderSerDesTag::DECODER_STATE);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  EncoderStateDeserializer::expect(get_len <= idata.remaining());
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
@@ -368,14 +370,11 @@ size_t FilterAdjustments::serialize(EncoderStateSerializer &odata) const {
 
 FilterAdjustments::FilterAdjustments(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::FILT_ADJ);
-  (void) data_type;   // not used except in assert
+  EncoderStateDeserializer::expect(data_type == EncoderSerDesTag::FILT_ADJ);
 
   uint32_t expect_len = num_reference_frames + 4;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // not used except in assert
-  (void) get_len;     // "
+  EncoderStateDeserializer::expect(expect_len == get_len);
 
   for (unsigned i = 0; i < num_reference_frames; i++) {
     loopfilter_ref_adjustments.at(i) = idata.get<int8_t>();
@@ -433,16 +432,14 @@ size_t Segmentation::serialize(EncoderStateSerializer &odata) const {
 
 Segmentation Segmentation::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
+  EncoderStateDeserializer::expect(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
   bool abs = data_type == EncoderSerDesTag::SEGM_ABS;
 
   uint32_t get_len = idata.get<uint32_t>();
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
   uint32_t expect_len = 4 + num_segments + num_segments + width * height;
-  assert(expect_len == get_len);
-  (void) expect_len;    // unused except in assert
-  (void) get_len;       // unused except in assert
+  EncoderStateDeserializer::expect(expect_len == get_len);
 
   return Segmentation(idata, abs, width, height);
 }
diff --git a/src/decoder/enc_state_serializer.hh b/src/decoder/enc_state_serializer.hh
index b1c362c..756adc7 100644
--- a/src/decoder/enc_state_serializer.hh
+++ b/src/decoder/enc_state_serializer.hh
@@ -37,6 +37,7 @@
 #include <utility>
 #include <vector>
 
+#include "exception.hh"
 #include "file.hh"
 #include "file_descriptor.hh"
 
@@ -145,6 +146,13 @@ class EncoderStateDeserializer : File {
     size_t remaining(void) const { return chunk().size() - ptr_; }
     size_t size(void) const { return chunk().size(); }
 
+    // a state file is input like any other: what it claims has to be checked
+    static void expect(const bool condition) {
+      if (not condition) {
+        throw Invalid("malformed decoder state");
+      }
+    }
+
     EncoderSerDesTag peek_tag(void) {
       return static_cast<EncoderSerDesTag>((*this)(ptr_, 1).octet());
     }
@@ -166,24 +174,17 @@ class EncoderStateDeserializer : File {
     MutableRasterHandle get_ref(EncoderSerDesTag t, const uint16_t width, const uint16_t height) {
       MutableRasterHandle raster(width, height);
 
-      if (this->peek_tag() == t) {
-        EncoderSerDesTag data_type = this->get_tag();
-        assert(data_type == t);
-        (void) t;           // not used except in assert
-        (void) data_type;   // not used except in assert
-        unsigned rwidth = raster.get().width();
-        unsigned rheight = raster.get().height();
-
-        uint32_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
-        uint32_t get_len = this->get<uint32_t>();
-        assert(get_len == expect_len);
-        (void) get_len;     // only used in assert
-        (void) expect_len;  // only used in assert
-
-        raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-      }
+      expect(this->get_tag() == t);
+      unsigned rwidth = raster.get().width();
+      unsigned rheight = raster.get().height();
+
+      uint32_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
+      uint32_t get_len = this->get<uint32_t>();
+      expect(get_len == expect_len);
+
+      raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
 
       return raster;
     }
diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index de92984..87003cf 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -79,6 +79,11 @@ void Macroblock<FrameHeaderType, MacroblockHeaderType>::update_segmentation( Seg
 
   /* cache segment id of this macroblock*/
   segment_id_ = mutable_segmentation_map.at( context_.column, context_.row );
+
+  /* a map that was read from a file can hold anything */
+  if ( segment_id_ >= num_segments ) {
+    throw Invalid( "segmentation map names a segment that does not exist" );
+  }
 }
 
 template <>
diff --git a/src/decoder/probability_tables.cc b/src/decoder/probability_tables.cc
index d0093cd..5e9926b 100644
--- a/src/decoder/probability_tables.cc
+++ b/src/decoder/probability_tables.cc
@@ -159,15 +159,12 @@ uint32_t ProbabilityTables::serialize(EncoderStateSerializer &odata) const {
 
 ProbabilityTables::ProbabilityTables(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::PROB_TABLE);
-  (void) data_type;   // unused except in assert
+  EncoderStateDeserializer::expect(data_type == EncoderSerDesTag::PROB_TABLE);
 
   uint32_t expect_len = BLOCK_TYPES * COEF_BANDS * PREV_COEF_CONTEXTS * ENTROPY_NODES +
                         y_mode_probs.size() + uv_mode_probs.size() + 2 * MV_PROB_CNT;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // uunusd except in assert
-  (void) get_len;     // "
+  EncoderStateDeserializer::expect(expect_len == get_len);
 
   for (unsigned i = 0; i < BLOCK_TYPES; i++) {
     for (unsigned j = 0; j < COEF_BANDS; j++) {
-- 
2.43.0


From 18a8598cae206c1f46158a8835a49398bedfcce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:09 +0000
Subject: [PATCH 17/53] fix: do not trust the state count of an acknowledgement
 for memory

---
 src/net/packet.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 3d0b322..132e5d8 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -302,10 +302,12 @@ AckPacket::AckPacket( const Chunk & str )
     fragment_no_( str( 6, 2 ).le16() ),
     avg_delay_( str( 8, 4 ).le32() ),
     current_state_( str( 12, 4 ).le32() ),
-    complete_states_( str( 16, 4 ).le32() )
+    complete_states_()
 {
-  for ( size_t i = 0; i < complete_states_.size(); i++ ) {
-    complete_states_[ i ] = str( 20 + i * 4, 4 ).le32();
+  /* the number of states is only a claim until they have been read */
+  const uint64_t count = str( 16, 4 ).le32();
+  for ( uint64_t i = 0; i < count; i++ ) {
+    complete_states_.push_back( str( 20 + i * 4, 4 ).le32() );
   }
 }
 
-- 
2.43.0


From 6d283b3913bfa3470a3c2a973406effaeca71eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:16 +0000
Subject: [PATCH 18/53] fix: refuse pictures without any pixels

---
 src/util/raster.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/raster.cc b/src/util/raster.cc
index addefe6..613a92b 100644
--- a/src/util/raster.cc
+++ b/src/util/raster.cc
@@ -40,6 +40,10 @@ BaseRaster::BaseRaster( const uint16_t display_width, const uint16_t display_hei
   : display_width_( display_width ), display_height_( display_height ),
     width_( width ), height_( height )
 {
+  if ( display_width_ == 0 or display_height_ == 0 ) {
+    throw Invalid( "image is zero size" );
+  }
+
   if ( display_width_ > width_ ) {
     throw Invalid( "display_width is greater than width." );
   }
-- 
2.43.0


From 4f92ef0b38a3fa3d754cbc7cc444d31b7ff0230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:37 +0000
Subject: [PATCH 19/53] fix: give the JPEG decoder room for whole blocks

---
 src/input/jpeg.cc | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/input/jpeg.cc b/src/input/jpeg.cc
index 9ceff65..a2d8336 100644
--- a/src/input/jpeg.cc
+++ b/src/input/jpeg.cc
@@ -85,21 +85,25 @@ void JPEGDecompresser::begin_decoding( const Chunk & chunk )
     throw runtime_error( "not 4:2:2" );
   }
 
+  /* the library writes whole blocks, also at the right and lower edge */
+  const unsigned int padded_width = 2 * DCTSIZE * ( ( width() + 2 * DCTSIZE - 1 ) / ( 2 * DCTSIZE ) );
+  const unsigned int padded_height = DCTSIZE * ( ( height() + DCTSIZE - 1 ) / DCTSIZE );
+
   if ( Y_.initialized() ) {
-    if ( Y_.get().height() != height()
-         or U_.get().height() != height()
-         or V_.get().height() != height()
-         or Y_.get().width() != width()
-         or U_.get().width() != width() / 2
-         or V_.get().width() != width() / 2 ) {
+    if ( Y_.get().height() != padded_height
+         or U_.get().height() != padded_height
+         or V_.get().height() != padded_height
+         or Y_.get().width() != padded_width
+         or U_.get().width() != padded_width / 2
+         or V_.get().width() != padded_width / 2 ) {
       throw runtime_error( "JPEG size changed" );
     }
   } else {
-    Y_.initialize( width(), height() );
-    U_.initialize( width() / 2, height() );
-    V_.initialize( width() / 2, height() );
+    Y_.initialize( padded_width, padded_height );
+    U_.initialize( padded_width / 2, padded_height );
+    V_.initialize( padded_width / 2, padded_height );
 
-    for ( unsigned int i = 0; i < height(); i++ ) {
+    for ( unsigned int i = 0; i < padded_height; i++ ) {
       Y_rows.emplace_back( &Y_.get().at( 0, i ) );
       U_rows.emplace_back( &U_.get().at( 0, i ) );
       V_rows.emplace_back( &V_.get().at( 0, i ) );
@@ -130,7 +134,7 @@ void JPEGDecompresser::decode( BaseRaster & r )
         &U_rows.at( decompresser_.output_scanline ),
         &V_rows.at( decompresser_.output_scanline ) };
 
-    const auto decoded = jpeg_read_raw_data( &decompresser_, image.data(), height() );
+    const auto decoded = jpeg_read_raw_data( &decompresser_, image.data(), Y_rows.size() );
 
     if ( decoded != DCTSIZE ) {
       throw runtime_error( "jpeg_read_raw_data returned short read" );
@@ -139,10 +143,12 @@ void JPEGDecompresser::decode( BaseRaster & r )
 
   jpeg_finish_decompress( &decompresser_ );
 
-  memcpy( &r.Y().at( 0, 0 ), &Y_.get().at( 0, 0 ), width() * height() );
+  for ( size_t row = 0; row < height(); row++ ) {
+    memcpy( &r.Y().at( 0, row ), &Y_.get().at( 0, row ), width() );
+  }
 
-  for ( size_t row = 0; row < height() / 2; row++ ) {
-    for ( size_t column = 0; column < width() / 2; column++ ) {
+  for ( size_t row = 0; row < r.chroma_display_height(); row++ ) {
+    for ( size_t column = 0; column < r.chroma_display_width(); column++ ) {
       r.U().at( column, row ) = U_.get().at( column, row * 2 );
       r.V().at( column, row ) = V_.get().at( column, row * 2 );
     }
-- 
2.43.0


From 304a8081093f55f5df6c579b1d6d6c77313c1c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:41 +0000
Subject: [PATCH 20/53] fix: keep the vector loads of inter prediction inside
 the reference

The SSE six-tap filters load 16 bytes where they need fewer.  For a block
whose taps end in the last row of the reference plane these loads ran up to
seven bytes past the end of the plane.  Such blocks now take the path that
checks every pixel.
---
 src/decoder/prediction.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoder/prediction.cc b/src/decoder/prediction.cc
index c714b99..472b0f6 100644
--- a/src/decoder/prediction.cc
+++ b/src/decoder/prediction.cc
@@ -660,10 +660,13 @@ void VP8Raster::Block<size>::inter_predict( const MotionVector & mv,
   const int source_column = column_ * size + ( mv.x() >> 3 );
   const int source_row = row_ * size + ( mv.y() >> 3 );
 
+  /* the SSE filters load whole vectors and so read up to seven pixels more than
+     they need at the end of each row: these must lie in the reference as well,
+     which the row after the last one needed makes sure of */
   if ( source_column - 2 < 0
        or source_column + size + 3 > reference.width()
        or source_row - 2 < 0
-       or source_row + size + 3 > reference.height() ) {
+       or source_row + size + 4 > reference.height() ) {
 
     EdgeExtendedRaster safe_reference( reference );
 
-- 
2.43.0


From 7c96ac3d0bc551c086f547442a06b1ea61a3e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:18 +0000
Subject: [PATCH 21/53] fix: accept partial frames whose token partitions are
 missing or cut short

A partial frame that ends before its partition sizes, or inside one of its
token partitions, was refused with an exception although partial frames
were asked for.
---
 src/decoder/uncompressed_chunk.cc | 16 ++++++++++++++--
 src/decoder/uncompressed_chunk.hh |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/decoder/uncompressed_chunk.cc b/src/decoder/uncompressed_chunk.cc
index a674fc6..9f0f2e2 100644
--- a/src/decoder/uncompressed_chunk.cc
+++ b/src/decoder/uncompressed_chunk.cc
@@ -42,7 +42,8 @@ UncompressedChunk::UncompressedChunk( const Chunk & frame,
     experimental_(),
     first_partition_( nullptr, 0 ),
     rest_( nullptr, 0 ),
-    corruption_level_( NO_CORRUPTION )
+    corruption_level_( NO_CORRUPTION ),
+    accept_partial_( accept_partial )
 {
   try {
     /* flags */
@@ -137,13 +138,24 @@ const vector< Chunk > UncompressedChunk::dct_partitions( const uint8_t num ) con
   /* get the lengths of all DCT partitions except the last one */
   vector< uint32_t > partition_lengths;
   for ( uint8_t i = 0; i < num - 1; i++ ) {
+    if ( accept_partial_ and rest_of_frame.size() < 3 ) {
+      /* what is missing from a partial frame counts as empty */
+      partition_lengths.push_back( 0 );
+      rest_of_frame = Chunk( nullptr, 0 );
+      continue;
+    }
+
     partition_lengths.push_back( rest_of_frame.bits( 0, 24 ) );
     rest_of_frame = rest_of_frame( 3 );
   }
 
   /* make all the DCT partitions */
   vector< Chunk > dct_partitions;
-  for ( const auto & length : partition_lengths ) {
+  for ( uint32_t length : partition_lengths ) {
+    if ( accept_partial_ and length > rest_of_frame.size() ) {
+      length = rest_of_frame.size();
+    }
+
     dct_partitions.emplace_back( rest_of_frame( 0, length ) );
     rest_of_frame = rest_of_frame( length );
   }
diff --git a/src/decoder/uncompressed_chunk.hh b/src/decoder/uncompressed_chunk.hh
index f4c9c08..fe435c9 100644
--- a/src/decoder/uncompressed_chunk.hh
+++ b/src/decoder/uncompressed_chunk.hh
@@ -59,6 +59,7 @@ private:
   Chunk first_partition_;
   Chunk rest_;
   CorruptionLevel corruption_level_;
+  bool accept_partial_;
 
 public:
   UncompressedChunk( const Chunk & frame, const uint16_t expected_width,
-- 
2.43.0


From 190a6aef28b97968d958a0285980f449e651802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 22/53] fix: conceal the macroblocks whose modes did not arrive

The flag that says whether the first partition arrived completely was
inverted, so that a partition cut short was read on as if it were complete
and its missing motion vectors were made up; and a concealed macroblock kept
the reference frame that had been read for it from data that was not there.
---
 src/decoder/decoder_state.hh | 4 ++--
 src/decoder/macroblock.cc    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index f89fba6..21210f8 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -77,7 +77,7 @@ inline KeyFrame DecoderState::parse_and_apply<KeyFrame>( const UncompressedChunk
 
   /* initialize Boolean decoder for the frame and macroblock headers */
   BoolDecoder first_partition( uncompressed_chunk.first_partition(),
-                               uncompressed_chunk.corruption_level() >= CORRUPTED_FIRST_PARTITION );
+                               uncompressed_chunk.corruption_level() < CORRUPTED_FIRST_PARTITION );
 
   if ( uncompressed_chunk.experimental() ) {
     throw Invalid( "experimental key frame" );
@@ -118,7 +118,7 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
 
   /* initialize Boolean decoder for the frame and macroblock headers */
   BoolDecoder first_partition( uncompressed_chunk.first_partition(),
-                               uncompressed_chunk.corruption_level() >= CORRUPTED_FIRST_PARTITION );
+                               uncompressed_chunk.corruption_level() < CORRUPTED_FIRST_PARTITION );
 
   /* parse interframe header */
   InterFrame myframe( uncompressed_chunk.show_frame(),
diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index 87003cf..950ac47 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -351,7 +351,7 @@ void InterFrameMacroblock::decode_prediction_modes( BoolDecoder & data,
 {
   if ( error_concealment and not data.valid() ) {
     /* We don't have enough prediction data for this macroblock */
-    header_.is_inter_mb = true;
+    header_ = InterFrameMacroblockHeader();
     Y2_.set_prediction_mode( ZEROMV );
     Y2_.set_if_coded();
   }
-- 
2.43.0


From dab4be0ece11eb9bc00cddb1834707cd1a9381d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 23/53] fix: do not make up the header of a partial frame

The fields of a frame header that did not arrive were decoded from nothing,
which refused the frame, or changed references and probabilities, at random.
---
 src/decoder/decoder_state.hh | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 21210f8..d5c78e0 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -111,6 +111,20 @@ inline KeyFrame DecoderState::parse_and_apply<KeyFrame>( const UncompressedChunk
   return myframe;
 }
 
+/* has the whole frame header arrived? */
+inline bool interframe_header_arrived( const Chunk & first_partition )
+{
+  BoolDecoder header_decoder( first_partition, false );
+
+  try {
+    InterFrameHeader header( header_decoder );
+  } catch ( const Unsupported & ) {
+    /* decided by what did not arrive, unless the decoder is still valid */
+  }
+
+  return header_decoder.valid();
+}
+
 template <>
 inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedChunk & uncompressed_chunk )
 {
@@ -120,6 +134,13 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
   BoolDecoder first_partition( uncompressed_chunk.first_partition(),
                                uncompressed_chunk.corruption_level() < CORRUPTED_FIRST_PARTITION );
 
+  /* a header that did not arrive completely is not made up: the frame is decoded as
+     if nothing of it had arrived */
+  if ( uncompressed_chunk.corruption_level() == CORRUPTED_FIRST_PARTITION
+       and not interframe_header_arrived( uncompressed_chunk.first_partition() ) ) {
+    first_partition = BoolDecoder( Chunk( nullptr, 0 ), false );
+  }
+
   /* parse interframe header */
   InterFrame myframe( uncompressed_chunk.show_frame(),
                       width, height, first_partition );
-- 
2.43.0


From 36f5485a26d8d1d3df15b4c34d449d599e0dd7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 24/53] fix: read the chroma planes of odd-sized Y4M videos in
 full

The last column and row of the chroma planes were left in the input, so
that the next frame did not start where it was expected.
---
 src/input/yuv4mpeg.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 3b69bc9..ffd545c 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -55,7 +55,7 @@ size_t YUV4MPEGHeader::frame_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height * 3 ) / 2;
+      return y_plane_length() + 2 * uv_plane_length();
     default: throw LogicError();
   }
 }
@@ -77,7 +77,7 @@ size_t YUV4MPEGHeader::uv_plane_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height / 4 );
+      return ( ( width + 1 ) / 2 ) * ( ( height + 1 ) / 2 );
     default: throw LogicError();
   }
 }
@@ -290,13 +290,13 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
     memcpy( &raster.get().Y().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().U().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().V().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-- 
2.43.0


From 337f738d03180ed82068aa13ccdb3a20889159f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:51 +0000
Subject: [PATCH 25/53] fix: keep the segment map of a key frame that is passed
 on unchanged

When a chunk is rebased, key frames in its middle are preserved. The
encoder's state then lacked their segment map, so that it was not the
state of a decoder following the output.
---
 src/encoder/encode_intra.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index c4fc3d8..2975fa6 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -43,6 +43,17 @@ void Encoder::update_decoder_state( const KeyFrame & frame )
   if ( frame.header().refresh_entropy_probs ) {
     decoder_state_.probability_tables.coeff_prob_update( frame.header() );
   }
+
+  if ( decoder_state_.segmentation.initialized() ) {
+    SegmentationMap & map = decoder_state_.segmentation.get().map;
+    const auto & macroblocks = frame.macroblocks();
+
+    for ( unsigned int row = 0; row < macroblocks.height(); row++ ) {
+      for ( unsigned int column = 0; column < macroblocks.width(); column++ ) {
+        map.at( column, row ) = macroblocks.at( column, row ).segment_id();
+      }
+    }
+  }
 }
 
 void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original_sb,
-- 
2.43.0


From 728f495b1ab4bdfb32941a674f428255cdb0b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 26/53] fix: packet fields keep their width (64-bit header
 field, time since last frame)

---
 src/net/packet.cc | 4 ++--
 src/net/packet.hh | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 132e5d8..a170212 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -50,7 +50,7 @@ string Packet::put_header_field( const uint32_t n )
 
 string Packet::put_header_field( const uint64_t n )
 {
-  const uint32_t network_order = htole64( n );
+  const uint64_t network_order = htole64( n );
   return string( reinterpret_cast<const char *>( &network_order ),
                  sizeof( network_order ) );
 }
@@ -61,7 +61,7 @@ Packet::Packet( const vector<uint8_t> & whole_frame,
                 const uint32_t target_state,
                 const uint32_t frame_no,
                 const uint16_t fragment_no,
-                const uint16_t time_since_last,
+                const uint32_t time_since_last,
                 size_t & next_fragment_start )
   : valid_( true ),
     connection_id_( connection_id ),
diff --git a/src/net/packet.hh b/src/net/packet.hh
index a09ef6e..c38786c 100644
--- a/src/net/packet.hh
+++ b/src/net/packet.hh
@@ -78,7 +78,7 @@ public:
           const uint32_t target_state,
           const uint32_t frame_no,
           const uint16_t fragment_no,
-          const uint16_t time_to_next,
+          const uint32_t time_to_next,
           size_t & next_fragment_start );
 
   /* construct incoming Packet */
-- 
2.43.0


From 61663a58ae383ebf4b4d5ce47956cf8e0034c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:08 +0000
Subject: [PATCH 27/53] fix: a hang-up on the descriptor of a cancelled or
 finished action no longer ends the event loop

---
 src/net/poller.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/net/poller.cc b/src/net/poller.cc
index 137da51..5f881d9 100644
--- a/src/net/poller.cc
+++ b/src/net/poller.cc
@@ -51,15 +51,19 @@ Poller::Result Poller::poll( const int & timeout_ms )
 
     /* tell poll whether we care about each fd */
     for ( unsigned int i = 0; i < actions_.size(); i++ ) {
-        assert( pollfds_.at( i ).fd == actions_.at( i ).fd.fd_num() );
         pollfds_.at( i ).events = (actions_.at( i ).active and actions_.at( i ).when_interested())
             ? actions_.at( i ).direction : 0;
 
         /* don't poll in on fds that have had EOF */
-        if ( actions_.at( i ).direction == Direction::In
-             and actions_.at( i ).fd.eof() ) {
+        const bool eof = actions_.at( i ).direction == Direction::In and actions_.at( i ).fd.eof();
+        if ( eof ) {
             pollfds_.at( i ).events = 0;
         }
+
+        /* poll() reports errors and hang-ups whatever the events, so fds
+           of cancelled or finished actions have to be hidden from it */
+        pollfds_.at( i ).fd = (actions_.at( i ).active and not eof)
+            ? actions_.at( i ).fd.fd_num() : -1;
     }
 
     /* Quit if no member in pollfds_ has a non-zero direction */
-- 
2.43.0


From 20361058d052cca8f2261b615e41ad555597df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:31 +0000
Subject: [PATCH 28/53] fix: refuse Y4M files with more than eight bits per
 sample

---
 src/input/yuv4mpeg.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index ffd545c..64b2b9e 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -209,7 +209,9 @@ YUV4MPEGReader::YUV4MPEGReader( FileDescriptor && fd )
     }
 
     case 'C': // color space
-        if ( token.substr( 0, 4 ) != "C420" ) {
+        /* in particular, not the formats with more than eight bits per sample */
+        if ( token != "C420" and token != "C420jpeg"
+             and token != "C420paldv" and token != "C420mpeg2" ) {
           throw runtime_error( "only yuv420 color space is supported" );
         }
         header_.color_space = YUV4MPEGHeader::ColorSpace::C420;
-- 
2.43.0


From 7bbc78d5f56446eb22bf009c7323c4e047533f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:47 +0000
Subject: [PATCH 29/53] fix: refuse Y4M dimensions that do not fit instead of
 truncating them

---
 src/input/yuv4mpeg.cc | 16 ++++++++++++++--
 src/input/yuv4mpeg.hh |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 64b2b9e..18c2a22 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -29,6 +29,7 @@
 #include "yuv4mpeg.hh"
 
 #include <fcntl.h>
+#include <limits>
 #include <sstream>
 #include <utility>
 #include <algorithm>
@@ -144,6 +145,17 @@ pair< size_t, size_t > YUV4MPEGReader::parse_fraction( const string & fraction_s
   return make_pair( numerator, denominator );
 }
 
+uint16_t YUV4MPEGReader::parse_dimension( const string & dimension_str )
+{
+  const int dimension = stoi( dimension_str );
+
+  if ( dimension < 1 or dimension > numeric_limits<uint16_t>::max() ) {
+    throw runtime_error( "width or height out of range" );
+  }
+
+  return dimension;
+}
+
 YUV4MPEGReader::YUV4MPEGReader( const string & filename )
   : YUV4MPEGReader( SystemCall( filename,
                     open( filename.c_str(),
@@ -171,11 +183,11 @@ YUV4MPEGReader::YUV4MPEGReader( FileDescriptor && fd )
 
     switch ( token[0] ) {
     case 'W': // width
-      header_.width = stoi( token.substr( 1 ) );
+      header_.width = parse_dimension( token.substr( 1 ) );
       break;
 
     case 'H': // height
-      header_.height = stoi( token.substr( 1 ) );
+      header_.height = parse_dimension( token.substr( 1 ) );
       break;
 
     case 'F': // framerate
diff --git a/src/input/yuv4mpeg.hh b/src/input/yuv4mpeg.hh
index 93709cb..db221bd 100644
--- a/src/input/yuv4mpeg.hh
+++ b/src/input/yuv4mpeg.hh
@@ -71,6 +71,7 @@ private:
   FileDescriptor fd_;
 
   static std::pair< size_t, size_t > parse_fraction( const std::string & fraction_str );
+  static uint16_t parse_dimension( const std::string & dimension_str );
 
 public:
   YUV4MPEGReader( FileDescriptor && fd );
-- 
2.43.0


From 4d5a0720ff29b6706f88d074857f5cad03c9358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 30/53] fix: accept Y4M frame headers with parameters

---
 src/input/yuv4mpeg.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 18c2a22..fa9bdd9 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -293,7 +293,8 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
     return {};
   }
 
-  if ( frame_header != "FRAME" ) {
+  /* parameters may follow the keyword */
+  if ( frame_header != "FRAME" and frame_header.compare( 0, 6, "FRAME " ) != 0 ) {
     throw runtime_error( "invalid yuv4mpeg2 input format" );
   }
 
-- 
2.43.0


From 16fec965bc4fd701fa9486085f551698897ebe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:55 +0000
Subject: [PATCH 31/53] fix: a damaged JPEG picture no longer prevents decoding
 the next ones

---
 src/input/jpeg.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input/jpeg.cc b/src/input/jpeg.cc
index a2d8336..89274a0 100644
--- a/src/input/jpeg.cc
+++ b/src/input/jpeg.cc
@@ -56,6 +56,9 @@ void JPEGDecompresser::error( const j_common_ptr cinfo )
 
 void JPEGDecompresser::begin_decoding( const Chunk & chunk )
 {
+  /* forget a previous picture that could not be decoded to its end */
+  jpeg_abort_decompress( &decompresser_ );
+
   /* older versions of libjpeg did not use a const pointer
      in jpeg_mem_src's buffer argument */
   jpeg_mem_src( &decompresser_,
-- 
2.43.0


From 80980517dbc5f8bdb127fcfada90627c609b5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:29 +0000
Subject: [PATCH 32/53] fix: copy camera pictures row by row, rasters can be
 wider than the picture

---
 src/input/camera.cc | 65 +++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/input/camera.cc b/src/input/camera.cc
index 3946cbf..c5e7420 100644
--- a/src/input/camera.cc
+++ b/src/input/camera.cc
@@ -113,6 +113,15 @@ Camera::~Camera()
   SystemCall( "stream off", ioctl( camera_fd_.fd_num(), VIDIOC_STREAMOFF, &capture_type ) );
 }
 
+/* the rows of a raster can be longer than those of the picture */
+static void copy_plane( TwoD<uint8_t> & plane, const uint8_t * src,
+                        const size_t width, const size_t height )
+{
+  for ( size_t row = 0; row < height; row++ ) {
+    memcpy( &plane.at( 0, row ), src + row * width, width );
+  }
+}
+
 Optional<RasterHandle> Camera::get_next_frame()
 {
   MutableRasterHandle raster_handle { width_, height_ };
@@ -130,45 +139,36 @@ Optional<RasterHandle> Camera::get_next_frame()
   switch( pixel_format_ ) {
   case V4L2_PIX_FMT_YUYV:
     {
-    uint8_t * src = mmap_region_->addr();
-    uint8_t * dst_y_start  = &raster.Y().at( 0, 0 );
-    uint8_t * dst_cb_start = &raster.U().at( 0, 0 );
-    uint8_t * dst_cr_start = &raster.V().at( 0, 0 );
-
-    const size_t y_plane_lenght = width_ * height_;
-
-    for ( size_t i = 0; i < y_plane_lenght; i++ ) {
-      dst_y_start[ i ] = src[ i << 1 ];
-    }
-
-    size_t i = 0;
+      const uint8_t * src = mmap_region_->addr();
 
-    for ( size_t row = 0; row < height_; row++ ) {
-      if ( row % 2 == 1 ) { continue; }
+      for ( size_t row = 0; row < height_; row++ ) {
+        for ( size_t column = 0; column < width_; column++ ) {
+          raster.Y().at( column, row ) = src[ ( row * width_ + column ) * 2 ];
+        }
+      }
 
-      for ( size_t column = 0; column < width_ / 2; column++ ) {
-        dst_cb_start[ i ] = src[ row * width_ * 2 + column * 4 + 1 ];
-        dst_cr_start[ i ] = src[ row * width_ * 2 + column * 4 + 3 ];
-        i++;
+      for ( size_t row = 0; row < height_; row += 2 ) {
+        for ( size_t column = 0; column < width_ / 2u; column++ ) {
+          raster.U().at( column, row / 2 ) = src[ row * width_ * 2 + column * 4 + 1 ];
+          raster.V().at( column, row / 2 ) = src[ row * width_ * 2 + column * 4 + 3 ];
+        }
       }
     }
-  }
 
-  break;
+    break;
 
   case V4L2_PIX_FMT_NV12:
     {
-      memcpy( &raster.Y().at( 0, 0 ), mmap_region_->addr(), width_ * height_ );
-
-      uint8_t * src_chroma_start = mmap_region_->addr() + width_ * height_;
-      uint8_t * dst_cb_start = &raster.U().at( 0, 0 );
-      uint8_t * dst_cr_start = &raster.V().at( 0, 0 );
+      const uint8_t * src = mmap_region_->addr();
+      copy_plane( raster.Y(), src, width_, height_ );
 
-      size_t chroma_length = width_ * height_ / 4;
+      const uint8_t * src_chroma_start = src + width_ * height_;
 
-      for ( size_t i = 0; i < chroma_length; i++ ) {
-        dst_cb_start[ i ] = src_chroma_start[ 2 * i ];
-        dst_cr_start[ i ] = src_chroma_start[ 2 * i + 1 ];
+      for ( size_t row = 0; row < height_ / 2u; row++ ) {
+        for ( size_t column = 0; column < width_ / 2u; column++ ) {
+          raster.U().at( column, row ) = src_chroma_start[ row * width_ + 2 * column ];
+          raster.V().at( column, row ) = src_chroma_start[ row * width_ + 2 * column + 1 ];
+        }
       }
     }
 
@@ -176,9 +176,10 @@ Optional<RasterHandle> Camera::get_next_frame()
 
   case V4L2_PIX_FMT_YUV420:
     {
-      memcpy( &raster.Y().at( 0, 0 ), mmap_region_->addr(), width_ * height_ );
-      memcpy( &raster.U().at( 0, 0 ), mmap_region_->addr() + width_ * height_, width_ * height_ / 4 );
-      memcpy( &raster.V().at( 0, 0 ), mmap_region_->addr() + width_ * height_ * 5 / 4, width_ * height_ / 4 );
+      const uint8_t * src = mmap_region_->addr();
+      copy_plane( raster.Y(), src, width_, height_ );
+      copy_plane( raster.U(), src + width_ * height_, width_ / 2, height_ / 2 );
+      copy_plane( raster.V(), src + width_ * height_ * 5 / 4, width_ / 2, height_ / 2 );
     }
 
     break;
-- 
2.43.0


From 435762388ac99778b927e84e3ca47e5bc11cee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 33/53] fix: read the camera buffer that the driver has filled

---
 src/input/camera.cc | 6 ++----
 src/input/camera.hh | 1 -
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/input/camera.cc b/src/input/camera.cc
index c5e7420..2ee34bf 100644
--- a/src/input/camera.cc
+++ b/src/input/camera.cc
@@ -130,11 +130,11 @@ Optional<RasterHandle> Camera::get_next_frame()
   v4l2_buffer buffer_info;
   buffer_info.type = capture_type;
   buffer_info.memory = V4L2_MEMORY_MMAP;
-  buffer_info.index = next_buffer_index;
 
   SystemCall( "dequeue buffer", ioctl( camera_fd_.fd_num(), VIDIOC_DQBUF, &buffer_info ) );
 
-  const MMap_Region * const mmap_region_ = &kernel_v4l2_buffers_.at( next_buffer_index );
+  /* the driver tells which buffer it has filled */
+  const MMap_Region * const mmap_region_ = &kernel_v4l2_buffers_.at( buffer_info.index );
 
   switch( pixel_format_ ) {
   case V4L2_PIX_FMT_YUYV:
@@ -202,7 +202,5 @@ Optional<RasterHandle> Camera::get_next_frame()
 
   SystemCall( "enqueue buffer", ioctl( camera_fd_.fd_num(), VIDIOC_QBUF, &buffer_info ) );
 
-  next_buffer_index = (next_buffer_index + 1) % NUM_BUFFERS;
-
   return RasterHandle{ move( raster_handle ) };
 }
diff --git a/src/input/camera.hh b/src/input/camera.hh
index cf9ec1d..22bdece 100644
--- a/src/input/camera.hh
+++ b/src/input/camera.hh
@@ -57,7 +57,6 @@ private:
 
   FileDescriptor camera_fd_;
   std::vector<MMap_Region> kernel_v4l2_buffers_;
-  unsigned int next_buffer_index = 0;
 
   uint32_t pixel_format_;
 
-- 
2.43.0


From 4cbe60c5f7e14cbec62be3622ceac78e40a0287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 34/53] fix: extend the edges of camera pictures

---
 src/input/camera.cc   | 3 +++
 src/input/yuv4mpeg.hh | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/input/camera.cc b/src/input/camera.cc
index 2ee34bf..ac10450 100644
--- a/src/input/camera.cc
+++ b/src/input/camera.cc
@@ -37,6 +37,7 @@
 #include "camera.hh"
 #include "exception.hh"
 #include "jpeg.hh"
+#include "yuv4mpeg.hh"
 
 using namespace std;
 
@@ -202,5 +203,7 @@ Optional<RasterHandle> Camera::get_next_frame()
 
   SystemCall( "enqueue buffer", ioctl( camera_fd_.fd_num(), VIDIOC_QBUF, &buffer_info ) );
 
+  edge_extend( raster );
+
   return RasterHandle{ move( raster_handle ) };
 }
diff --git a/src/input/yuv4mpeg.hh b/src/input/yuv4mpeg.hh
index db221bd..bcaea33 100644
--- a/src/input/yuv4mpeg.hh
+++ b/src/input/yuv4mpeg.hh
@@ -90,6 +90,9 @@ public:
   FileDescriptor & fd() { return fd_; }
 };
 
+/* replicate the edge of the picture in the rest of the raster */
+void edge_extend( BaseRaster & raster );
+
 class YUV4MPEGFrameWriter
 {
 public:
-- 
2.43.0


From c321e5fb79a4174af60889589ef4be7158f6c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:16 +0000
Subject: [PATCH 35/53] fix: give each thread its own zero decoder

BoolDecoder::zero_decoder() handed the same mutable object to every
thread, so encoding (or concealing) in several threads, as salsify-sender
does, was a data race.
---
 src/decoder/bool_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/bool_decoder.hh b/src/decoder/bool_decoder.hh
index b40d906..9cb6c41 100644
--- a/src/decoder/bool_decoder.hh
+++ b/src/decoder/bool_decoder.hh
@@ -110,7 +110,7 @@ public:
 
   static BoolDecoder & zero_decoder()
   {
-    static BoolDecoder zd { { nullptr, 0 } };
+    static thread_local BoolDecoder zd { { nullptr, 0 } };
     return zd;
   }
 
-- 
2.43.0


From 408f174363f84b9fd90389d0e69c9b4442be1248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:35 +0000
Subject: [PATCH 36/53] fix: salsify-receiver: list a complete state only once

A state that was reached again (a still picture) was listed twice; when a
later frame started from a state between the two, its decoder was dropped
while it was still acknowledged as complete, and with a still picture the
list grew without bound.
---
 src/salsify/salsify-receiver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index 20f6386..313fdf2 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -28,6 +28,7 @@
 
 #include <getopt.h>
 
+#include <algorithm>
 #include <cstdlib>
 #include <random>
 #include <unordered_map>
@@ -302,6 +303,11 @@ int main( int argc, char *argv[] )
              current_state != initial_state ) {
           /* this is a full state. let's save it */
           decoders.insert( make_pair( current_state, player.current_decoder() ) );
+
+          /* the same state can be reached more than once; list it only once,
+             as the most recent one, so that it's kept for as long as it's listed */
+          complete_states.erase( remove( complete_states.begin(), complete_states.end(), current_state ),
+                                 complete_states.end() );
           complete_states.push_back( current_state );
         }
 
-- 
2.43.0


From 74dbdff40c5eeacac0c25a6e4901eb568e91943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:00 +0000
Subject: [PATCH 37/53] fix: salsify-sender: do not look up encoders that were
 cleaned up

When acknowledgements are reordered, the latest one can list complete states
older than those for which encoders are still held; in conservative mode the
sender then died in unordered_map::at().
---
 src/salsify/salsify-sender.cc | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index f3dd111..b41e435 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -382,6 +382,17 @@ int main( int argc, char *argv[] )
 
       uint32_t selected_source_hash = initial_state;
 
+      /* acks can be overtaken by older ones (when fragments are reordered), so
+         we might have already cleaned up some of the states that they list */
+      const auto latest_usable_state = [&]()
+        {
+          for ( auto it = receiver_complete_states.rbegin(); it != receiver_complete_states.rend(); it++ ) {
+            if ( encoders.count( *it ) ) { return *it; }
+          }
+
+          return initial_state;
+        };
+
       /* reason about the state of the receiver based on ack messages
        * this is the logic that decides which encoder to use. for example,
        * if the packet loss is huge, we can always select an encoder with a sure
@@ -390,15 +401,9 @@ int main( int argc, char *argv[] )
       /* if we're in 'conservative' mode, let's just encode based on something
          we're sure that is available in the receiver */
       if ( system_clock::now() < conservative_until ) {
-        if( receiver_complete_states.size() == 0 ) {
-          /* and the receiver doesn't have any other states, other than the
-             default state */
-          selected_source_hash = initial_state;
-        }
-        else {
-          /* the receiver has at least one stored state, let's use it */
-          selected_source_hash = receiver_complete_states.back();
-        }
+        /* use the latest of the states stored by the receiver, or, if it has
+           none that we still have an encoder for, the default state */
+        selected_source_hash = latest_usable_state();
       }
       else if ( not receiver_last_acked_state.initialized() ) {
         /* okay, we're not in 'conservative' mode */
@@ -423,15 +428,9 @@ int main( int argc, char *argv[] )
           cerr << "Going into 'conservative' mode for next "
                << conservative_for.count() << " seconds." << endl;
 
-          if( receiver_complete_states.size() == 0 ) {
-            /* and the receiver doesn't have any other states, other than the
-               default state */
-            selected_source_hash = initial_state;
-          }
-          else {
-            /* the receiver has at least one stored state, let's use it */
-            selected_source_hash = receiver_complete_states.back();
-          }
+          /* use the latest of the states stored by the receiver, or, if it has
+             none that we still have an encoder for, the default state */
+          selected_source_hash = latest_usable_state();
         }
         else {
           /* we assume that the receiver is in a right state */
-- 
2.43.0


From c062f841c64f3ea93b232a451bedf6660d2edf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:27 +0000
Subject: [PATCH 38/53] fix: salsify-receiver: keep a decoder as long as its
 state is listed

Follow-up to the previous change: moving a state that was reached again to the
end of the list made frames that start from it drop states which the sender
may still refer to. As in the sender, a state can be listed more than once,
and its decoder is dropped with the last occurrence.
---
 src/salsify/salsify-receiver.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index 313fdf2..79034e4 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -282,7 +282,10 @@ int main( int argc, char *argv[] )
 
           for ( ; it != complete_states.end(); it++ ) {
             if ( *it != expected_source_state ) {
-              decoders.erase( *it );
+              /* keep the decoder if the same state was reached again later */
+              if ( find( next( it ), complete_states.end(), *it ) == complete_states.end() ) {
+                decoders.erase( *it );
+              }
             }
             else {
               break;
@@ -304,11 +307,11 @@ int main( int argc, char *argv[] )
           /* this is a full state. let's save it */
           decoders.insert( make_pair( current_state, player.current_decoder() ) );
 
-          /* the same state can be reached more than once; list it only once,
-             as the most recent one, so that it's kept for as long as it's listed */
-          complete_states.erase( remove( complete_states.begin(), complete_states.end(), current_state ),
-                                 complete_states.end() );
-          complete_states.push_back( current_state );
+
+          /* (a still picture can lead to the same state again and again) */
+          if ( complete_states.empty() or complete_states.back() != current_state ) {
+            complete_states.push_back( current_state );
+          }
         }
 
         fragmented_frames.erase( next_frame_no );
-- 
2.43.0


From caba38e43c1937e04737696efd8198bbe479a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:20 +0000
Subject: [PATCH 39/53] fix: salsify-receiver: ignore datagrams that are not of
 the session

A malformed datagram, or one with another connection ID, ended the receiver.
---
 src/salsify/salsify-receiver.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index 79034e4..be0ebc4 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -219,7 +219,19 @@ int main( int argc, char *argv[] )
       const auto new_fragment = socket.recv();
 
       /* parse into Packet */
-      const Packet packet { new_fragment.payload };
+      Packet packet;
+      try {
+        packet = Packet( new_fragment.payload );
+      }
+      catch ( const exception & e ) {
+        cerr << "ignoring a malformed datagram: " << e.what() << endl;
+        return ResultType::Continue;
+      }
+
+      if ( packet.connection_id() != connection_id ) {
+        /* this is not a packet for this session! */
+        return ResultType::Continue;
+      }
 
       if ( packet.frame_no() < next_frame_no ) {
         /* we're not interested in this anymore */
-- 
2.43.0


From ced7c78db55aba88a9bdfbdd4b3a7f51ec45c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:34 +0000
Subject: [PATCH 40/53] fix: salsify-sender: no division by zero in
 conventional mode

The receiver reports a delay of 0 when packets arrive no further apart than
they were sent (and before it has measured any).
---
 src/salsify/salsify-sender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index b41e435..bdc8722 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -453,7 +453,7 @@ int main( int argc, char *argv[] )
         /* is it time to update the quality setting? */
         if ( next_cc_update <= system_clock::now() ) {
           const size_t old_quantizer = cc_quantizer;
-          cc_rate = 1000 * 1000 * 1400 / avg_delay;
+          cc_rate = 1000 * 1000 * 1400 / max( 1u, avg_delay );
 
           double change_percentage = ( 1.0 * cc_rate - 1.0 * cc_rate_ewma ) /
                                      ( 1.0 * cc_rate_ewma );
-- 
2.43.0


From 9de3917454f9f357c1d2d9cb3eeaf3ba18a2c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:54 +0000
Subject: [PATCH 41/53] fix: salsify-receiver: the display thread must not look
 into the player

It took its example raster from the decoder while the main thread was
already decoding into it: a data race, and a dangling reference.
---
 src/salsify/salsify-receiver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index be0ebc4..44065e6 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -193,7 +193,8 @@ int main( int argc, char *argv[] )
   player.set_error_concealment( true );
 
   /* construct display thread */
-  thread( [&player, fullscreen]() { display_task( player.example_raster(), fullscreen ); } ).detach();
+  const RasterHandle example_raster { player.current_decoder().get_references().last };
+  thread( [example_raster, fullscreen]() { display_task( example_raster.get(), fullscreen ); } ).detach();
 
   /* frame no => FragmentedFrame; used when receiving packets out of order */
   unordered_map<size_t, FragmentedFrame> fragmented_frames;
-- 
2.43.0


From 1a2dc8729ad7f85435190d73717f179d45dad0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:50 +0000
Subject: [PATCH 42/53] fix: salsify-sender: join the thread that waits on the
 encoding jobs

Detached, it could still be counting its write when the next one wrote (a data
race), or be using main's variables after main had returned.
---
 src/salsify/salsify-sender.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index bdc8722..cfccd01 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -333,6 +333,10 @@ int main( int argc, char *argv[] )
   auto encode_start_pipe = UnixDomainSocket::make_pair();
   auto encode_end_pipe = UnixDomainSocket::make_pair();
 
+  /* the thread that waits on the encoding jobs; it works on the variables above */
+  thread encode_thread;
+  auto join_encode_thread = finally( [&]() { if ( encode_thread.joinable() ) { encode_thread.join(); } } );
+
   /* mem usage timer */
   system_clock::time_point next_mem_usage_report = system_clock::now();
 
@@ -496,7 +500,7 @@ int main( int argc, char *argv[] )
       }
 
       // this thread will spawn all the encoding jobs and will wait on the results
-      thread(
+      encode_thread = thread(
         [&encode_jobs, &encode_outputs, &encode_end_pipe, operation_mode]()
         {
           encode_outputs.clear();
@@ -514,7 +518,7 @@ int main( int argc, char *argv[] )
 
           encode_end_pipe.first.write( "1" );
         }
-      ).detach();
+      );
 
       return ResultType::Continue;
     } )
@@ -534,6 +538,7 @@ int main( int argc, char *argv[] )
       );
 
       encode_end_pipe.second.read();
+      encode_thread.join();
 
       avg_encoding_time.add( duration_cast<microseconds>( system_clock::now().time_since_epoch() ) );
 
-- 
2.43.0


From 6a787a25b0baeb51319bb9d378caf875ca86f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 43/53] fix: xc-ssim: the default input format is IVF

---
 src/frontend/xc-ssim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frontend/xc-ssim.cc b/src/frontend/xc-ssim.cc
index 49986be..4abb65c 100644
--- a/src/frontend/xc-ssim.cc
+++ b/src/frontend/xc-ssim.cc
@@ -34,7 +34,7 @@ int main( int argc, char *argv[] )
     return EXIT_FAILURE;
   }
 
-  string video_format[ 2 ];
+  string video_format[ 2 ] = { "ivf", "ivf" };
   bool all_planes = false;
 
   const option command_line_options[] = {
-- 
2.43.0


From dd684be1e1b5e8e4171c64d29b3cfaff91aa9a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 44/53] fix: xc-ssim: compare the pictures, not what lies
 beyond their edges

---
 src/frontend/xc-ssim.cc | 22 +++++++++++++++++++---
 src/util/ssim.cc        |  8 +++++++-
 src/util/ssim.hh        |  4 ++++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/frontend/xc-ssim.cc b/src/frontend/xc-ssim.cc
index 4abb65c..3b0b403 100644
--- a/src/frontend/xc-ssim.cc
+++ b/src/frontend/xc-ssim.cc
@@ -22,6 +22,17 @@ void usage_error( const string & program_name )
        << "                                         ivf (default), y4m"       << endl;
 }
 
+/* The decoder's planes reach beyond the picture, to whole macroblocks. What lies there
+   is not part of the video, unless the picture is too small for SSIM (8x8). */
+double plane_ssim( const TwoD<uint8_t> & plane1, const TwoD<uint8_t> & plane2,
+                   const unsigned int width, const unsigned int height )
+{
+  if ( width < 8 or height < 8 ) {
+    return ssim( plane1, plane2 );
+  }
+
+  return ssim( plane1, plane2, width, height );
+}
 
 int main( int argc, char *argv[] )
 {
@@ -94,12 +105,17 @@ int main( int argc, char *argv[] )
                                       video_reader[ 1 ]->get_next_frame() };
 
   while ( raster[ 0 ].initialized() and raster[ 1 ].initialized() ) {
-    double y_ssim = ssim( raster[ 0 ].get().get().Y(), raster[ 1 ].get().get().Y() );
+    const VP8Raster & raster1 = raster[ 0 ].get();
+    const VP8Raster & raster2 = raster[ 1 ].get();
+    const unsigned int width = raster1.display_width();
+    const unsigned int height = raster1.display_height();
+
+    double y_ssim = plane_ssim( raster1.Y(), raster2.Y(), width, height );
     cout << y_ssim;
 
     if ( all_planes ) {
-      double u_ssim = ssim( raster[ 0 ].get().get().U(), raster[ 1 ].get().get().U() );
-      double v_ssim = ssim( raster[ 0 ].get().get().V(), raster[ 1 ].get().get().V() );
+      double u_ssim = plane_ssim( raster1.U(), raster2.U(), ( width + 1 ) / 2, ( height + 1 ) / 2 );
+      double v_ssim = plane_ssim( raster1.V(), raster2.V(), ( width + 1 ) / 2, ( height + 1 ) / 2 );
       cout << "\t" << u_ssim << "\t" << v_ssim;
     }
 
diff --git a/src/util/ssim.cc b/src/util/ssim.cc
index 7d632bf..470c56a 100644
--- a/src/util/ssim.cc
+++ b/src/util/ssim.cc
@@ -55,6 +55,12 @@ x264_pixel_function_t init_pixel_function( void )
 x264_pixel_function_t x264_funcs = init_pixel_function();
 
 double ssim( const TwoD<uint8_t> & image, const TwoD<uint8_t> & other_image )
+{
+  return ssim( image, other_image, image.width(), image.height() );
+}
+
+double ssim( const TwoD<uint8_t> & image, const TwoD<uint8_t> & other_image,
+             const unsigned int width, const unsigned int height )
 {
    int count;
    std::vector<uint8_t> tmp_buffer;
@@ -64,7 +70,7 @@ double ssim( const TwoD<uint8_t> & image, const TwoD<uint8_t> & other_image )
    // No padding so stride = width
    double ssim = x264_8_pixel_ssim_wxh( &x264_funcs, &image.at( 0, 0 ), image.width(),
                                         &other_image.at( 0, 0 ), other_image.width(),
-                                        image.width(), image.height(),
+                                        width, height,
                                         tmp_buffer.data(), &count );
 
    return ssim / count;
diff --git a/src/util/ssim.hh b/src/util/ssim.hh
index 446fcec..cd277be 100644
--- a/src/util/ssim.hh
+++ b/src/util/ssim.hh
@@ -29,3 +29,7 @@
 #include "2d.hh"
 
 double ssim( const TwoD<uint8_t> & image, const TwoD<uint8_t> & other_image );
+
+/* only the width x height region at the top left */
+double ssim( const TwoD<uint8_t> & image, const TwoD<uint8_t> & other_image,
+             const unsigned int width, const unsigned int height );
-- 
2.43.0


From 0a34f64f991c99e8ba203d2904f0f7ca726239d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 45/53] fix: xc-ssim: refuse videos of different picture sizes

---
 src/frontend/xc-ssim.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frontend/xc-ssim.cc b/src/frontend/xc-ssim.cc
index 3b0b403..6a058b6 100644
--- a/src/frontend/xc-ssim.cc
+++ b/src/frontend/xc-ssim.cc
@@ -101,6 +101,11 @@ int main( int argc, char *argv[] )
     }
   }
 
+  if ( video_reader[ 0 ]->display_width() != video_reader[ 1 ]->display_width()
+       or video_reader[ 0 ]->display_height() != video_reader[ 1 ]->display_height() ) {
+    throw runtime_error( "the videos have different picture sizes" );
+  }
+
   Optional<RasterHandle> raster[] = { video_reader[ 0 ]->get_next_frame(),
                                       video_reader[ 1 ]->get_next_frame() };
 
-- 
2.43.0


From 892696dc7f19c83edfe944d05732b8fec64d8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 46/53] fix: xc-ssim, xc-dump, xc-diff: stop when an argument
 is missing

---
 src/frontend/xc-diff.cc | 1 +
 src/frontend/xc-dump.cc | 1 +
 src/frontend/xc-ssim.cc | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/frontend/xc-diff.cc b/src/frontend/xc-diff.cc
index 8d1f0fa..1a765ee 100644
--- a/src/frontend/xc-diff.cc
+++ b/src/frontend/xc-diff.cc
@@ -84,6 +84,7 @@ int main( int argc, char *argv[] )
 
     if ( optind + 1 >= argc ) {
       usage_error( argv[ 0 ] );
+      return EXIT_FAILURE;
     }
 
     array<const string, 2> state_file = { argv[ optind ], argv[ optind + 1 ] };
diff --git a/src/frontend/xc-dump.cc b/src/frontend/xc-dump.cc
index 8dae0c3..15e1a80 100644
--- a/src/frontend/xc-dump.cc
+++ b/src/frontend/xc-dump.cc
@@ -96,6 +96,7 @@ int main( int argc, char *argv[] )
 
     if ( optind + 1 >= argc ) {
       usage_error( argv[ 0 ] );
+      return EXIT_FAILURE;
     }
 
     input_file = argv[ optind++ ];
diff --git a/src/frontend/xc-ssim.cc b/src/frontend/xc-ssim.cc
index 6a058b6..72203ed 100644
--- a/src/frontend/xc-ssim.cc
+++ b/src/frontend/xc-ssim.cc
@@ -82,6 +82,7 @@ int main( int argc, char *argv[] )
 
   if ( optind + 1 >= argc ) {
     usage_error( argv[ 0 ] );
+    return EXIT_FAILURE;
   }
 
   string video_file[ 2 ];
-- 
2.43.0


From b01ba18e67456d15d7842434e2571ef04e9c0860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 47/53] fix: report when a decoder state cannot be written

---
 src/decoder/enc_state_serializer.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoder/enc_state_serializer.hh b/src/decoder/enc_state_serializer.hh
index 756adc7..e05083c 100644
--- a/src/decoder/enc_state_serializer.hh
+++ b/src/decoder/enc_state_serializer.hh
@@ -33,6 +33,7 @@
 #include <cstdio>
 #include <fstream>
 #include <iterator>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -109,6 +110,11 @@ class EncoderStateSerializer {
       std::ofstream output_file(filename);
       std::ostream_iterator<uint8_t> output_iter(output_file);
       std::copy(data_.begin(), data_.end(), output_iter);
+      output_file.close();
+
+      if (not output_file) {
+        throw std::runtime_error(std::string("could not write decoder state: ") + filename);
+      }
     }
 
     void write(const std::string &filename) {
-- 
2.43.0


From fc848ee78ca90726e15919c2a1fcd1f7dad2706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 48/53] fix: xc-dump, xc-dissect: refuse files that are not VP8

---
 src/frontend/xc-dissect.cc | 4 ++++
 src/frontend/xc-dump.cc    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/frontend/xc-dissect.cc b/src/frontend/xc-dissect.cc
index 3898db3..c43a763 100644
--- a/src/frontend/xc-dissect.cc
+++ b/src/frontend/xc-dissect.cc
@@ -434,6 +434,10 @@ int main( int argc, char *argv[] )
 
   const IVF ivf( video_file );
 
+  if ( ivf.fourcc() != "VP80" ) {
+    throw Unsupported( "not a VP8 file" );
+  }
+
   uint16_t width = ivf.width();
   uint16_t height = ivf.height();
 
diff --git a/src/frontend/xc-dump.cc b/src/frontend/xc-dump.cc
index 15e1a80..e4131eb 100644
--- a/src/frontend/xc-dump.cc
+++ b/src/frontend/xc-dump.cc
@@ -104,6 +104,10 @@ int main( int argc, char *argv[] )
 
     IVF ivf( input_file );
 
+    if ( ivf.fourcc() != "VP80" ) {
+      throw Unsupported( "not a VP8 file" );
+    }
+
     Decoder decoder = ( input_state == "" )
                     ? Decoder( ivf.width(), ivf.height() )
                     : EncoderStateDeserializer::build<Decoder>( input_state );
-- 
2.43.0


From da689ca2193798486c75462d835fb804f079f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 49/53] fix: xc-dump, xc-dissect: refuse a state of another
 picture size

---
 src/frontend/xc-dissect.cc | 4 ++++
 src/frontend/xc-dump.cc    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/frontend/xc-dissect.cc b/src/frontend/xc-dissect.cc
index c43a763..bd90ec1 100644
--- a/src/frontend/xc-dissect.cc
+++ b/src/frontend/xc-dissect.cc
@@ -445,6 +445,10 @@ int main( int argc, char *argv[] )
                   ? Decoder( ivf.width(), ivf.height() )
                   : EncoderStateDeserializer::build<Decoder>( input_state );
 
+  if ( decoder.get_width() != width or decoder.get_height() != height ) {
+    throw Unsupported( "state vs. file dimension mismatch" );
+  }
+
   if ( not decoder.minihash_match( ivf.expected_decoder_minihash() ) ) {
     cerr << "WARNING: Decoder state does not match IVF expected decoder state. Coefficients will be incorrect.\n";
   }
diff --git a/src/frontend/xc-dump.cc b/src/frontend/xc-dump.cc
index e4131eb..2be11e4 100644
--- a/src/frontend/xc-dump.cc
+++ b/src/frontend/xc-dump.cc
@@ -112,6 +112,10 @@ int main( int argc, char *argv[] )
                     ? Decoder( ivf.width(), ivf.height() )
                     : EncoderStateDeserializer::build<Decoder>( input_state );
 
+    if ( decoder.get_width() != ivf.width() or decoder.get_height() != ivf.height() ) {
+      throw Unsupported( "state vs. file dimension mismatch" );
+    }
+
     if ( not decoder.minihash_match( ivf.expected_decoder_minihash() ) ) {
       throw Invalid( "Decoder state / IVF mismatch" );
     }
-- 
2.43.0


From e0b54586dfdcbf55fa0da88674ba5f88baec6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 50/53] fix: salsify-sender: ignore datagrams that are not acks
 of the session

A malformed datagram ended the sender, and an ack for a frame that was never
sent was looked up out of bounds.
---
 src/salsify/salsify-sender.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index cfccd01..ccbb3b3 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -664,10 +664,19 @@ int main( int argc, char *argv[] )
     [&]()
     {
       auto packet = socket.recv();
-      AckPacket ack( packet.payload );
+      Optional<AckPacket> parsed_ack;
+      try {
+        parsed_ack.initialize( packet.payload );
+      }
+      catch ( const exception & e ) {
+        cerr << "ignoring a malformed ack: " << e.what() << endl;
+        return ResultType::Continue;
+      }
+
+      AckPacket & ack = parsed_ack.get();
 
-      if ( ack.connection_id() != connection_id ) {
-        /* this is not an ack for this session! */
+      if ( ack.connection_id() != connection_id or ack.frame_no() >= cumulative_fpf.size() ) {
+        /* this is not an ack for this session, or for a frame that was never sent! */
         return ResultType::Continue;
       }
 
-- 
2.43.0


From 180e3bb89635a40402ce98e90a3ccced21263ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:39 +0000
Subject: [PATCH 51/53] fix: Optional: assignment to itself, and from an object
 whose copy fails

Assigning a Decoder (with segmentation) to itself copied from a destroyed
object; an exception from the copy left a destroyed object marked present.
---
 src/util/optional.hh | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/util/optional.hh b/src/util/optional.hh
index 74e9a6a..d5a6a4c 100644
--- a/src/util/optional.hh
+++ b/src/util/optional.hh
@@ -89,14 +89,15 @@ public:
   /* move assignment operators */
   const Optional & operator=( Optional<T> && other )
   {
-    /* destroy if necessary */
-    if ( initialized_ ) {
-      object_.~T();
+    if ( this == &other ) {
+      return *this;
     }
 
-    initialized_ = other.initialized_;
-    if ( initialized_ ) {
-      new( &object_ ) T( std::move( other.object_ ) );
+    /* destroy if necessary */
+    clear();
+
+    if ( other.initialized_ ) {
+      initialize( std::move( other.object_ ) );
     }
     return *this;
   }
@@ -104,14 +105,15 @@ public:
   /* copy assignment operator */
   const Optional & operator=( const Optional<T> & other )
   {
-    /* destroy if necessary */
-    if ( initialized_ ) {
-      object_.~T();
+    if ( this == &other ) {
+      return *this;
     }
 
-    initialized_ = other.initialized_;
-    if ( initialized_ ) {
-      new( &object_ ) T( other.object_ );
+    /* destroy if necessary */
+    clear();
+
+    if ( other.initialized_ ) {
+      initialize( other.object_ );
     }
     return *this;
   }
-- 
2.43.0


From 516135fc182b737d893396d1206fa8454b381011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:39 +0000
Subject: [PATCH 52/53] fix: Chunk: fields of more than 24 bits, and lengths
 that wrap round

bits() computed in 32-bit signed arithmetic what it returns as 64 bits, and
offset + length past 2^64 gave a chunk beyond the end of its data.
---
 src/util/chunk.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index eb43c18..1939ea2 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -63,7 +63,7 @@ private:
     if ( n > 63 ) {
       throw std::out_of_range( "bit mask size is unsupported" );
     }
-    return ( 1 << n ) - 1;
+    return ( uint64_t( 1 ) << n ) - 1;
   }
 
 public:
@@ -93,7 +93,9 @@ public:
   Chunk operator() ( const uint64_t & offset, const uint64_t & length ) const
   {
     bounds_check( offset );
-    bounds_check( offset + length );
+    if ( length > size_ - offset ) { /* offset + length may wrap round */
+      throw std::out_of_range( "attempted to read past end of chunk" );
+    }
     return Chunk( buffer_ + offset, length );
   }
 
@@ -133,7 +135,7 @@ public:
 
     uint64_t val = 0;
     for ( uint64_t i = 0; i < byte_len; i++ ) {
-      val |= buffer_[ i ] << ( i * 8 );
+      val |= uint64_t( buffer_[ i ] ) << ( i * 8 );
     }
 
     return ( val >> bit_offset ) & bit_mask( bit_length );
-- 
2.43.0


From 630828c2a951a7d2a7388311d730d96483231633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:39 +0000
Subject: [PATCH 53/53] fix: Address: addresses of different sizes are not
 equal

Only the first size_ bytes were compared, so an empty address was equal to
any other, but not the other way round.
---
 src/net/address.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/address.cc b/src/net/address.cc
index 5494884..d28d37a 100644
--- a/src/net/address.cc
+++ b/src/net/address.cc
@@ -165,5 +165,5 @@ const sockaddr & Address::to_sockaddr( void ) const
 /* equality */
 bool Address::operator==( const Address & other ) const
 {
-  return 0 == memcmp( &addr_, &other.addr_, size_ );
+  return size_ == other.size_ and 0 == memcmp( &addr_, &other.addr_, size_ );
 }
-- 
2.43.0

