From 2757704edd0fb7d25f8d91b84cb74514dc404bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 01/55] fix: framer frees received frames addressed to an
 invalid port

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5ba59ac..6852df5 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -660,6 +660,7 @@ static void rx_hook_fn(
     struct embc_framer_header_s hdr = *buffer_hdr(frame);
     if (hdr.port >= EMBC_FRAMER_PORTS) {
         EMBC_LOGW("invalid port %d", (int) hdr.port);
+        embc_buffer_free(frame);
         return;
     }
     EMBC_ASSERT(frame->length == (hdr.length + EMBC_FRAMER_HEADER_SIZE + EMBC_FRAMER_FOOTER_SIZE));
-- 
2.43.0


From 584b11d253ae4242534faed4b74fe78dc4bdce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 02/55] fix: framer orders held receive frames across frame id
 wrap

The frame id is 4 bits, so the distance must be computed modulo 16.
Also free a duplicate rather than leak it.
---
 src/stream/framer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6852df5..25c220e 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -310,10 +310,11 @@ static void rx_insert(struct embc_framer_s *self, struct embc_buffer_s * frame)
     embc_list_foreach(&self->rx_pending, item) {
         struct embc_buffer_s * f = embc_list_entry(item, struct embc_buffer_s, item);
         struct embc_framer_header_s * h1 = buffer_hdr(f);
-        uint8_t delta = h->frame_id - h1->frame_id;
+        uint8_t delta = (hdr_frame_id(h) - hdr_frame_id(h1)) & EMBC_FRAMER_ID_MASK;
         if (0 == delta) { // duplicate
+            embc_buffer_free(frame);
             return;
-        } else if (delta > 128) { // before current item
+        } else if (delta > 8) { // before current item
             embc_list_insert_before(item, &frame->item);
             return;
         }
-- 
2.43.0


From 02c3c12582149ba7c3a141d1b9ab88573afb6fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 03/55] fix: framer resync aborts queued transmit frames as
 buffers

The tx_queue holds embc_buffer_s items, not tx_buf_s items.
---
 src/stream/framer.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 25c220e..8693d82 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -441,26 +441,30 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
+static void tx_done_notify(struct embc_framer_s * self, struct embc_framer_header_s * hdr, uint8_t status) {
+    ++self->status.tx_count;
+    uint16_t port_def = hdr_port_def(hdr);
+    if (hdr->port < EMBC_FRAMER_PORTS) {
+        self->port_cbk[hdr->port].tx_done_fn(
+                self->port_cbk[hdr->port].port,
+                hdr->port,
+                hdr->message_id,
+                port_def,
+                status
+        );
+    } else {
+        EMBC_LOGW("invalid port %d", (int) hdr->port);
+    }
+}
+
 static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
-    ++self->status.tx_count;
     embc_buffer_free(t->b);
     t->b = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
-    uint16_t port_def = hdr_port_def(&hdr);
-    if (hdr.port < EMBC_FRAMER_PORTS) {
-        self->port_cbk[hdr.port].tx_done_fn(
-                self->port_cbk[hdr.port].port,
-                hdr.port,
-                hdr.message_id,
-                port_def,
-                status
-        );
-    } else {
-        EMBC_LOGW("invalid port %d", (int) hdr.port);
-    }
+    tx_done_notify(self, &hdr, status);
 }
 
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
@@ -481,9 +485,11 @@ static void tx_purge_queued(struct embc_framer_s * self) {
         tx_complete(self, t, EMBC_ERROR_ABORTED);
     }
     embc_list_foreach(&self->tx_queue, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
+        struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+        struct embc_framer_header_s hdr = *buffer_hdr(b);
         embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+        embc_buffer_free(b);
+        tx_done_notify(self, &hdr, EMBC_ERROR_ABORTED);
     }
 }
 
-- 
2.43.0


From 9e16ffeb4a0c19ad2346aac524fa89598bbda78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 04/55] fix: framer leaves transmit buffers alone while the HAL
 owns them

The HAL owns each buffer from tx_fn until embc_framer_hal_tx_done().
Do not retransmit or free the buffer until then.
---
 src/stream/framer.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 8693d82..4f29bab 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -77,6 +77,7 @@ struct tx_buf_s {
     int64_t timeout;
     uint8_t status;
     uint8_t retries;
+    bool hal_owned;  // The HAL owns b until embc_framer_hal_tx_done().
 };
 
 static inline uint16_t hdr_port_def(struct embc_framer_header_s * hdr) {
@@ -460,7 +461,9 @@ static void tx_done_notify(struct embc_framer_s * self, struct embc_framer_heade
 static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
-    embc_buffer_free(t->b);
+    if (!t->hal_owned) { // else freed by embc_framer_hal_tx_done()
+        embc_buffer_free(t->b);
+    }
     t->b = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
@@ -468,7 +471,10 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
 }
 
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
-    if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
+    if (t->hal_owned) {
+        // Still being transmitted: start the ACK timeout when the HAL is done.
+        t->timeout = EMBC_TIME_MAX;
+    } else if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
         tx_complete(self, t, status);
     } else {
         ++t->retries;
@@ -574,6 +580,7 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     struct embc_framer_header_s * hdr = buffer_hdr(t->b);
     EMBC_LOGD2("tx 0x%02x, 0x%04x %p", hdr->frame_id, hdr_port_def(hdr), (void *) t->b);
     t->status = TX_STATUS_TRANSMITTING;
+    t->hal_owned = true;
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     t->timeout = EMBC_FRAMER_TIMEOUT + current_time;
     self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
@@ -930,9 +937,18 @@ void embc_framer_hal_tx_done(
         embc_list_foreach(&self->tx_buffers_active, item) {
             struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
             if (t->b == buffer) {
-                t->status = TX_STATUS_AWAIT_ACK;
+                t->hal_owned = false;
+                if (TX_STATUS_TRANSMITTING == t->status) {
+                    t->status = TX_STATUS_AWAIT_ACK;
+                }
+                if (EMBC_TIME_MAX == t->timeout) { // expired during transmit
+                    t->timeout = EMBC_FRAMER_TIMEOUT + self->hal_cbk.time_get(self->hal_cbk.hal);
+                    timer_schedule(self);
+                }
+                return;
             }
         }
+        embc_buffer_free(buffer); // completed while transmitting
     }
 }
 
-- 
2.43.0


From 55d42b6350d0acace92282deaa6558a3fbf40f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 05/55] fix: framer always rearms its timer after expiration

The expired timeout was remembered as still scheduled, and the timeout
of acknowledged frames was still used, which left the pending frames
without any timer.
---
 src/stream/framer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 4f29bab..2afd7e1 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -527,6 +527,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
+    self->next_timeout = EMBC_TIME_MAX; // the timer expired, so no longer scheduled
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     if (current_time >= self->rx_next_timeout) {
         self->rx_next_timeout = EMBC_TIME_MAX;
@@ -564,7 +565,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if (t->timeout < timeout) {
+        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
-- 
2.43.0


From 2b763a5c7e4109d110809abe2a62ba898b822b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 06/55] fix: framer accepts ACKs when an intermediate frame
 failed

Frames before the acknowledged frame may not be contiguous after a
frame exceeds its retries, so do not assert.
---
 src/stream/framer.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 2afd7e1..c91583b 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -621,11 +621,12 @@ static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_
         struct embc_list_s * item = &t_match->item;
         while (item->prev != &self->tx_buffers_active) {
             item = item->prev;
-            mask = mask << 1;
             struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
             struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-            frame_id = (frame_id - 1) & EMBC_FRAMER_ID_MASK;
-            EMBC_ASSERT(frame_id == hdr->frame_id);
+            while (frame_id != hdr->frame_id) { // skips frames which failed
+                mask = mask << 1;
+                frame_id = (frame_id - 1) & EMBC_FRAMER_ID_MASK;
+            }
             if ((TX_STATUS_AWAIT_ACK == t->status) && (mask & EMBC_FRAMER_ACK_MASK_CURRENT)) {
                 t->status = TX_STATUS_ACKED;
             }
-- 
2.43.0


From 1839ab58923ff631f618e1395810673441c091af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:34 +0000
Subject: [PATCH 07/55] fix: framer tolerates callbacks which send or resync

The tx_done, rx and timer callbacks may change the pending lists, so
never hold an iterator across them.
---
 src/stream/framer.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index c91583b..5099441 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -344,9 +344,8 @@ static void rx_complete(struct embc_framer_s *self, struct embc_buffer_s * frame
 static void rx_complete_queued(struct embc_framer_s *self) {
     struct embc_list_s *item;
     struct embc_buffer_s *b;
-    embc_list_foreach(&self->rx_pending, item) {
+    while (0 != (item = embc_list_remove_head(&self->rx_pending))) {
         b = embc_list_entry(item, struct embc_buffer_s, item);
-        embc_list_remove(&b->item);
         rx_complete(self, b);
     }
 }
@@ -484,16 +483,25 @@ static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t s
 }
 
 static void tx_purge_queued(struct embc_framer_s * self) {
+    struct embc_list_s active;
+    struct embc_list_s queue;
     struct embc_list_s * item;
-    embc_list_foreach(&self->tx_buffers_active, item) {
+    embc_list_initialize(&active);
+    embc_list_initialize(&queue);
+    // Detach first, since the tx_done callbacks may send again.
+    while (0 != (item = embc_list_remove_head(&self->tx_buffers_active))) {
+        embc_list_add_tail(&active, item);
+    }
+    while (0 != (item = embc_list_remove_head(&self->tx_queue))) {
+        embc_list_add_tail(&queue, item);
+    }
+    while (0 != (item = embc_list_remove_head(&active))) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
         tx_complete(self, t, EMBC_ERROR_ABORTED);
     }
-    embc_list_foreach(&self->tx_queue, item) {
+    while (0 != (item = embc_list_remove_head(&queue))) {
         struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
         struct embc_framer_header_s hdr = *buffer_hdr(b);
-        embc_list_remove(item);
         embc_buffer_free(b);
         tx_done_notify(self, &hdr, EMBC_ERROR_ABORTED);
     }
@@ -504,7 +512,7 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
     bool match_current = false;
     struct embc_list_s * item;
     uint8_t tx_ack_frame_id = expected_tx_frame_id(self);
-    embc_list_foreach(&self->tx_buffers_active, item) {
+    while (0 != (item = embc_list_peek_head(&self->tx_buffers_active))) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
         match_current |= (t == t_current);
         struct embc_framer_header_s *hdr = buffer_hdr(t->b);
@@ -521,10 +529,20 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
     }
 }
 
+static struct tx_buf_s * find_tx_expired(struct embc_framer_s * self, int64_t current_time) {
+    struct embc_list_s * item;
+    embc_list_foreach(&self->tx_buffers_active, item) {
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
+            return t;
+        }
+    }
+    return 0;
+}
+
 static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_framer_s * self = (struct embc_framer_s *) user_data;
     (void) timer_id;
-    struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
     self->next_timeout = EMBC_TIME_MAX; // the timer expired, so no longer scheduled
@@ -533,11 +551,8 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
         self->rx_next_timeout = EMBC_TIME_MAX;
         rx_complete_queued(self);
     }
-    embc_list_foreach(&self->tx_buffers_active, item) {
-        t = embc_list_entry(item, struct tx_buf_s, item);
-        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
-            tx_error(self, t, EMBC_ERROR_TIMED_OUT);
-        }
+    while (0 != (t = find_tx_expired(self, current_time))) {
+        tx_error(self, t, EMBC_ERROR_TIMED_OUT);
     }
     timer_schedule(self);
 }
-- 
2.43.0


From 44dfb7a2e1c51c3d670b03198deae3e7ca62fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 08/55] fix: framer continues after a frame exceeds its retries

Complete the acknowledged frames which were held behind the failed
frame and transmit the queued frames, rather than stall.
---
 src/stream/framer.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5099441..4445d8f 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -94,6 +94,7 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 }
 
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
+static void transmit_queued(struct embc_framer_s * self);
 static void timer_schedule(struct embc_framer_s * self);
 
 struct embc_framer_s {
@@ -418,17 +419,6 @@ static inline void send_frame_ack(
     self->hal_cbk.tx_fn(self->hal_cbk.hal, ack);
 }
 
-static uint8_t expected_tx_frame_id(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    if (embc_list_is_empty(&self->tx_buffers_active)) {
-        return 255;
-    }
-    item = embc_list_peek_head(&self->tx_buffers_active);
-    struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-    struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-    return hdr->frame_id;
-}
-
 static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
@@ -511,12 +501,10 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
     // Complete only when guaranteed in order!
     bool match_current = false;
     struct embc_list_s * item;
-    uint8_t tx_ack_frame_id = expected_tx_frame_id(self);
     while (0 != (item = embc_list_peek_head(&self->tx_buffers_active))) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
         match_current |= (t == t_current);
-        struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-        if ((TX_STATUS_ACKED == t->status) && (hdr->frame_id == tx_ack_frame_id)) {
+        if (TX_STATUS_ACKED == t->status) {
             tx_complete(self, t, 0);
         } else if (!match_current && (t->status == TX_STATUS_AWAIT_ACK)) {
             ++self->status.tx_retransmit_count;
@@ -525,10 +513,18 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
         } else {
             break;
         }
-        tx_ack_frame_id = frame_id_incr(tx_ack_frame_id);
     }
 }
 
+static void tx_advance(struct embc_framer_s * self) {
+    // A frame failed: complete the frames held behind it & transmit queued.
+    struct embc_list_s * item = embc_list_peek_head(&self->tx_buffers_active);
+    if (item) {
+        tx_complete_in_order(self, embc_list_entry(item, struct tx_buf_s, item));
+    }
+    transmit_queued(self);
+}
+
 static struct tx_buf_s * find_tx_expired(struct embc_framer_s * self, int64_t current_time) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
@@ -554,6 +550,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
     while (0 != (t = find_tx_expired(self, current_time))) {
         tx_error(self, t, EMBC_ERROR_TIMED_OUT);
     }
+    tx_advance(self);
     timer_schedule(self);
 }
 
@@ -675,6 +672,8 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         struct tx_buf_s * t = find_tx(self, frame_id);
         if (t) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
+            tx_advance(self);
+            timer_schedule(self);
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
         }
-- 
2.43.0


From 15abf8b152a3057350336f2f5f0e428d0fff344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 09/55] fix: framer keeps outstanding frame ids within the
 receive window

When an intermediate frame fails, its slot must not be reused while an
older frame is still pending, or the receiver discards its held frames.
---
 src/stream/framer.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 4445d8f..1a89353 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -600,13 +600,27 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     timer_schedule(self);
 }
 
+static bool tx_window_is_open(struct embc_framer_s * self) {
+    // The outstanding frame ids must always fit within the receiver's window.
+    if (embc_list_is_empty(&self->tx_buffers_active)) {
+        return true;
+    }
+    struct embc_list_s * item = embc_list_peek_head(&self->tx_queue);
+    struct embc_buffer_s * next = embc_list_entry(item, struct embc_buffer_s, item);
+    item = embc_list_peek_head(&self->tx_buffers_active);
+    struct tx_buf_s * oldest = embc_list_entry(item, struct tx_buf_s, item);
+    uint8_t delta = (hdr_frame_id(buffer_hdr(next)) - hdr_frame_id(buffer_hdr(oldest->b))) & EMBC_FRAMER_ID_MASK;
+    return (delta < EMBC_FRAMER_OUTSTANDING_FRAMES_MAX);
+}
+
 static void transmit_queued(struct embc_framer_s * self) {
     if (EMBC_LOG_CHECK_STATIC(EMBC_LOG_LEVEL_DEBUG1)) {
         embc_size_t sz = embc_list_length(&self->tx_queue);
         sz += embc_list_length(&self->tx_buffers_active);
         EMBC_LOGD("transmit_queued total length = %d", (int) sz);
     }
-    while (!embc_list_is_empty(&self->tx_buffers_free) && !embc_list_is_empty(&self->tx_queue)) {
+    while (!embc_list_is_empty(&self->tx_buffers_free) && !embc_list_is_empty(&self->tx_queue)
+            && tx_window_is_open(self)) {
         struct embc_list_s * item =  embc_list_remove_head(&self->tx_queue);
         struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
         item = embc_list_remove_head(&self->tx_buffers_free);
-- 
2.43.0


From 1c676b40dae35e3bef16f2697217cf745e571caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 10/55] fix: framer resynchronization handles frames found in
 the buffer

Do not skip the byte after an embedded frame, and do not erase from an
empty buffer (assert) when nothing remains.
---
 src/stream/framer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 1a89353..fbe2d79 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -823,7 +823,7 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     (void) status;
     uint16_t count = embc_buffer_length(self->rx_buffer);
     uint16_t sz = count;
-    uint16_t i = 1;
+    int32_t i = 1;
     uint16_t length;
     if (0 == (self->rx_state & 0x80)) {
         EMBC_LOGD3("framer_resync not synchronized, no additional error.");
@@ -867,7 +867,7 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 embc_buffer_write(f, b, length);
                 embc_buffer_cursor_set(f, 0);
                 embc_buffer_erase(self->rx_buffer, 0, i + length);
-                i = 0;
+                i = -1; // continue with the first remaining byte
                 count = embc_buffer_length(self->rx_buffer);
                 ++self->status.rx_count;
                 self->rx_hook_fn(self->rx_hook_user_data, f);
@@ -880,7 +880,9 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
         }
     }
 exit:
-    embc_buffer_erase(self->rx_buffer, 0, i);
+    if (i > 0) {
+        embc_buffer_erase(self->rx_buffer, 0, i);
+    }
 }
 
 void embc_framer_hal_rx_byte(struct embc_framer_s * self, uint8_t byte) {
-- 
2.43.0


From 6844b7a31354b877ab0ad0de368e70712c6d3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 11/55] fix: framer send copies maximum sized payloads

---
 src/stream/framer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index fbe2d79..7c6fcf2 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -1049,7 +1049,7 @@ void embc_framer_send(
 
     if (buffer->reserve < EMBC_FRAMER_FOOTER_SIZE) {
         EMBC_LOGD("embc_framer_send buffer copy %p", (void *) buffer);
-        EMBC_ASSERT(length < EMBC_FRAMER_PAYLOAD_MAX_SIZE);
+        EMBC_ASSERT(length <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
         struct embc_buffer_s * b = embc_framer_alloc(self);
         embc_buffer_write(b, buffer->data, length);
         embc_buffer_free(buffer);
-- 
2.43.0


From b8988bb47804e52fd54495d159a8ba7ebf44351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 12/55] fix: mblock tests only the bit of the addressed block

Blocks before an allocated block in the same byte appeared allocated,
so allocation failed with space available and double frees were missed.
---
 src/memory/block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5cb8baa..84e36f5 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -60,7 +60,7 @@ void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
     int32_t idx_start = idx_invalid;
     int32_t free_count = 0;
     for (int32_t idx_search = 0; idx_search < s->block_count; ++idx_search) {
-        int32_t bit = s->bitmap[idx_search / 8] >> (idx_search & 0x7);
+        int32_t bit = (s->bitmap[idx_search / 8] >> (idx_search & 0x7)) & 1;
         if (bit) {
             idx_start = idx_invalid;
             free_count = 0;
@@ -94,7 +94,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
-        int32_t bit = s->bitmap[idx / 8] >> (idx & 0x7);
+        int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
         s->bitmap[idx / 8] &= ~((uint8_t) (1 << (idx & 0x07)));
     }
-- 
2.43.0


From 6048c43d2bdb9eabc33c9683ff00055d46700fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 13/55] fix: event manager callbacks may schedule and cancel
 events

Do not hold an iterator across the callback, which may cancel the next
event or schedule another event that is already due.
---
 src/event_manager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index a3f7bde..4bcad7a 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -114,7 +114,7 @@ int32_t embc_evm_process(struct embc_evm_s * self, int64_t time_current) {
     struct embc_list_s * node;
     struct event_s * ev;
     int32_t count = 0;
-    embc_list_foreach(&self->events_pending, node) {
+    while (0 != (node = embc_list_peek_head(&self->events_pending))) {
         ev = EVGET(node);
         if (ev->timestamp > time_current) {
             break;
-- 
2.43.0


From b3b85dc83fb5955f3539b5239426eac6c5e11e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 14/55] fix: event manager never reuses an event id

Cancelling an event that already completed cancelled the unrelated
event that reused its id.  Also return 0 as documented for timestamp <= 0
and when out of memory.
---
 src/event_manager.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index 4bcad7a..7e28d75 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -52,14 +52,19 @@ void embc_evm_free(struct embc_evm_s * self) {
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
                           embc_evm_callback cbk_fn, void * cbk_user_data) {
     struct event_s * ev = 0;
+    if (timestamp <= 0) {
+        return 0;
+    }
     if (embc_list_is_empty(&self->events_free)) {
-        ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
-        ev->event_id = self->event_counter;
+        if (!ev) {
+            return 0;
+        }
         embc_list_initialize(&ev->node);
     } else {
         ev = EVGET(embc_list_remove_head(&self->events_free));
     }
+    ev->event_id = ++self->event_counter;
     ev->timestamp = timestamp;
     ev->cbk_fn = cbk_fn;
     ev->cbk_user_data = cbk_user_data;
-- 
2.43.0


From 4c96dde03d796ed6a54b672a36cc1ad5a384200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 15/55] fix: event manager frees its events

---
 src/event_manager.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index 7e28d75..8cc902c 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -46,6 +46,15 @@ struct embc_evm_s * embc_evm_allocate() {
 }
 
 void embc_evm_free(struct embc_evm_s * self) {
+    struct embc_list_s * node;
+    if (self) {
+        while (0 != (node = embc_list_remove_head(&self->events_pending))) {
+            free(EVGET(node));
+        }
+        while (0 != (node = embc_list_remove_head(&self->events_free))) {
+            free(EVGET(node));
+        }
+    }
     free(self);
 }
 
-- 
2.43.0


From 0527ff61fa6a99cdb8860ad5be0511e51cd42beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 16/55] fix: intmap resize keeps the entries which share a bin

Entries were dropped from the map, and the old bins were leaked.
---
 src/collections/intmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index fc0e2e0..0f6c9a4 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -109,11 +109,12 @@ static void resize(struct embc_intmap_s * self) {
             item->next = 0;
             previous = &self->bins[compute_bin(self, item->key)];
             while (*previous) {
-                *previous = (*previous)->next;
+                previous = &(*previous)->next;
             }
             *previous = item;
         }
     }
+    embc_free(bins_old);
 }
 
 int embc_intmap_put(struct embc_intmap_s * self, embc_size_t key, void * value, void ** old_value) {
-- 
2.43.0


From 025e9d32dd68d3862e76c06e545f7017d8fd00be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 17/55] fix: intmap iterator terminates after an item in the
 last bin

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 0f6c9a4..fd078a4 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -209,6 +209,7 @@ static void itermap_iterator_next_advance(struct embc_intmap_iterator_s * self)
             self->current_bin += 1;
         }
     }
+    self->next_item = 0;
     while (self->current_bin <= self->intmap->hash_mask) {
         self->next_item = self->intmap->bins[self->current_bin];
         if (self->next_item) {
-- 
2.43.0


From c56e6f8340a46b6a1314439ccf914b2921e6407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 18/55] fix: intmap frees removed entries and the typed
 wrappers

---
 include/embc/collections/intmap.h | 3 ++-
 src/collections/intmap.c          | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embc/collections/intmap.h b/include/embc/collections/intmap.h
index e374a13..11f320c 100644
--- a/include/embc/collections/intmap.h
+++ b/include/embc/collections/intmap.h
@@ -179,7 +179,7 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         self->intmap = embc_intmap_new(); \
         return self; \
     } \
-    void name##_free(struct name##_s * self) { embc_intmap_free(self->intmap); } \
+    void name##_free(struct name##_s * self) { embc_intmap_free(self->intmap); free(self); } \
     embc_size_t name##_length(struct name##_s * self) { return embc_intmap_length(self->intmap); } \
     int name##_put(struct name##_s * self, embc_size_t key, type value, type * old_value) { \
         return embc_intmap_put(self->intmap, key, (void *) value, (void **) old_value); \
@@ -200,6 +200,7 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
     } \
     void name##_iterator_free(struct name##_iterator_s * self) { \
         embc_intmap_iterator_free(self->iter); \
+        free(self); \
     }
 
 /** @} */
diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index fd078a4..265e36a 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -190,8 +190,7 @@ int embc_intmap_remove(struct embc_intmap_s * self, embc_size_t key, void ** old
                     itermap_iterator_next_advance(iter);
                 }
             }
-            item->next = 0;
-            item->value = 0;
+            embc_free(item);
             return 0;
         }
         previous = &(item->next);
-- 
2.43.0


From 43460965b106835d752f827e4fd8db486dd303b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 19/55] fix: cli rejects lines which are too long even with
 whitespace

A line longer than the buffer was executed truncated when its start
could be compacted.
---
 src/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index b0b1260..1c0f469 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -115,7 +115,7 @@ static void embc_cli_compact(embc_cli_t * self) {
     for (i = 0; i < self->cmdlen; ++i) {
         if (i >= EMBC_CLI_LINE_LENGTH) {
             // line too long - do not compact.
-            break;
+            return;
         }
         char ch = self->cmdline[i];
         if (isCommentStart(&ch)) { /* start of a comment */
-- 
2.43.0


From c29c9cfd2500ea058d93c98610bfcffcfe61b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 20/55] fix: cli line parser does not read beyond the command
 line

---
 src/cli.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 1c0f469..23f9575 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -222,8 +222,12 @@ int embc_cli_line_parser(void * self, const char * cmdline) {
     char * argv[EMBC_CLI_MAX_ARGS];
     char * lineptr = line;
     embc_memset(&argv, 0, sizeof(argv));
-    embc_memcpy(line, cmdline, sizeof(line));
-    line[sizeof(line) - 1] = 0; // just to be sure.
+    embc_size_t length = 0;
+    while ((length < (embc_size_t) (sizeof(line) - 1)) && cmdline[length]) {
+        line[length] = cmdline[length];
+        ++length;
+    }
+    line[length] = 0;
     while (1) {
         // consume multiple delimiters
         while (*lineptr && _is_delimiter(*lineptr, delimiters)) {
-- 
2.43.0


From e5a70429eda3c834897adf8639d043b447e784ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 21/55] fix: cli keeps the execute_cookie for execute_args

---
 src/cli.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 23f9575..46599f9 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -150,7 +150,9 @@ static void embc_cli_process_line(embc_cli_t * self) {
         print_newline(self);
     } else { // valid command
         int rc = EMBC_CLI_SUCCESS;
-        if (self->execute_line) {
+        if (self->execute_args) {
+            rc = embc_cli_line_parser(self, self->cmdline);
+        } else if (self->execute_line) {
             rc = self->execute_line(self->execute_cookie, self->cmdline);
         }
         if (rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
@@ -170,10 +172,6 @@ void embc_cli_initialize(embc_cli_t * self) {
     EMBC_DBC_NOT_NULL(self);
     embc_memset(self->cmdline, 0, sizeof(self->cmdline));
     self->cmdlen = 0;
-    if (self->execute_args) {
-        self->execute_line = embc_cli_line_parser;
-        self->execute_cookie = self;
-    }
     print_prompt(self);
 }
 
-- 
2.43.0


From a0a37b180a13594ce2f9d8384a47a7cef5981398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 22/55] fix: pattern_32a accumulates the duplicate count

The count held only the last duplication, was not initialized and was
not cleared on the initial synchronization.
---
 src/pattern_32a.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 750bf52..ddfe641 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -118,6 +118,7 @@ void embc_pattern_32a_rx_initialize(
     embc_pattern_32a_tx_initialize(&self->tx);
     self->receive_count = 0;
     self->missing_count = 0;
+    self->duplicate_count = 0;
     self->error_count = 0;
     self->resync_count = 0;
     self->syncword1 = 0;
@@ -183,7 +184,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
 
     if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
-        self->duplicate_count = EMBC_PATTERN_32A_PERIOD - delta - incr;
+        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
         self->missing_count += incr + delta;
     }
@@ -206,6 +207,7 @@ void embc_pattern_32a_rx_next(
         case ST_UNSYNC2: {
             if (resync(self, self->syncword1, value)) {
                 self->missing_count = 0;
+                self->duplicate_count = 0;
                 self->error_count = 0;
                 self->state = ST_SYNC;
             } else {
-- 
2.43.0


From 188105a908f7bfd419971e876c89a59b927a79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 23/55] fix: buffer allocator rejects sizes larger than its
 largest buffer

The limit was the total memory size, so large requests indexed beyond
the pools.
---
 src/memory/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 02bc733..0da6360 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -85,7 +85,7 @@ void embc_buffer_allocator_initialize(
     }
     embc_memset(self, 0, total_size);
     uint8_t * memory = (uint8_t *) self;
-    self->size_max = total_size; // largest buffer
+    self->size_max = (length > 0) ? (32 << (length - 1)) : 0; // largest buffer
     uint8_t * buffers_ptr = memory + header_size;
 
     for (embc_size_t i = 0; i < length; ++i) {
-- 
2.43.0


From 4510d1cd9e8ec7495017d12024c9c08702b28a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 24/55] fix: buffer string writes accept a string which fits
 exactly

---
 src/memory/buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 0da6360..fca6332 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -237,8 +237,8 @@ static inline bool write_str_(struct embc_buffer_s * buffer,
         ++str;
         ++buffer->cursor;
     }
-    buffer->length = capacity;
-    return false;
+    write_update_length(buffer);
+    return (*str == 0);
 }
 
 void embc_buffer_write_str(struct embc_buffer_s * buffer,
-- 
2.43.0


From f3b295af4ea7884d0300f244bc6e76626e58f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 25/55] fix: static buffer initialize clears reserve

---
 include/embc/memory/buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embc/memory/buffer.h b/include/embc/memory/buffer.h
index f388610..bd2d9a0 100644
--- a/include/embc/memory/buffer.h
+++ b/include/embc/memory/buffer.h
@@ -686,6 +686,7 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
     } while(0); \
     (name).cursor = 0; \
     (name).length = 0; \
+    (name).reserve = 0; \
     (name).buffer_id = 0; \
     (name).flags = 0; \
     (name).manager = &embc_buffer_manager_static; \
-- 
2.43.0


From 2b5dfa7e86be54957ff23c2fc124707368d0f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 26/55] fix: list contains, append of empty list and
 reverse_unsafe iteration

---
 include/embc/collections/list.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 8e9ea46..f68d8ec 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -321,7 +321,7 @@ static inline void embc_list_insert_after(
  * (usually) minor performance improvement.
  */
 #define embc_list_foreach_reverse_unsafe(list, item) \
-    for (item = (list)->prevnext; item != (list); \
+    for (item = (list)->prev; item != (list); \
          item = item->prev)
 
 /**
@@ -392,7 +392,7 @@ EMBC_API embc_size_t embc_list_index_of(struct embc_list_s * list,
  */
 static inline bool embc_list_contains(struct embc_list_s * list,
                                       struct embc_list_s * item) {
-    return (embc_list_index_of(list, item) < 0);
+    return (embc_list_index_of(list, item) >= 0);
 }
 
 /**
@@ -404,6 +404,9 @@ static inline bool embc_list_contains(struct embc_list_s * list,
  */
 static inline void embc_list_append(struct embc_list_s * list_tgt,
                                     struct embc_list_s * list) {
+    if (embc_list_is_empty(list)) {
+        return;
+    }
     list->prev->next = list_tgt;
     list->next->prev = list_tgt->prev;
     list_tgt->prev->next = list->next;
-- 
2.43.0


From 722ea489b2a20eefabec87f4972d4e9f2248c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 27/55] fix: hashmap frees its table and entries

---
 src/collections/hashmap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/collections/hashmap.c b/src/collections/hashmap.c
index c207859..6fc802e 100644
--- a/src/collections/hashmap.c
+++ b/src/collections/hashmap.c
@@ -64,6 +64,15 @@ struct embc_hashmap_s * embc_hashmap_new(embc_hashmap_hash hash, embc_hashmap_eq
 void embc_hashmap_free(struct embc_hashmap_s * self) {
     if (self) {
         // free everything
+        for (embc_size_t idx = 0; idx <= self->hashtable_mask; ++idx) {
+            struct entry_s * item = self->hashtable[idx];
+            while (item) {
+                struct entry_s * next_item = item->next;
+                embc_free(item);
+                item = next_item;
+            }
+        }
+        embc_free(self->hashtable);
         embc_free(self);
     }
 }
-- 
2.43.0


From cfd2b3caea5195006743592d79c7a85512822a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 28/55] fix: async source closes a stream only once

---
 src/stream/async_source.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 4291c5f..cf1d62f 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -30,6 +30,9 @@ static void send(struct embc_stream_producer_s * self,
             }
             break;
         case EMBC_STREAM_IOCTL_WRITE:
+            if (s->rx_offset >= s->source_length) {
+                break; // already closing
+            }
             s->rx_offset += transaction->length;
             if (s->rx_offset >= s->source_length) {
                 EMBC_STRUCT_PTR_INIT(transaction);
@@ -67,6 +70,11 @@ static void send(struct embc_stream_producer_s * self,
             break;
         }
         case EMBC_STREAM_EVENT_ABORT:
+            if (s->rx_offset >= s->source_length) {
+                break; // already closing
+            }
+            s->tx_offset = s->source_length;
+            s->rx_offset = s->source_length;
             transaction->type = EMBC_STREAM_IOCTL_CLOSE;
             transaction->status = EMBC_ERROR_ABORTED;
             s->consumer->send(s->consumer, transaction);
-- 
2.43.0


From b87c192e4041da954040b4a063b0f163b0281e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 29/55] fix: async sink close ends the session

---
 src/stream/async_sink.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index eca0940..0afc255 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -81,7 +81,7 @@ static void send(struct embc_stream_consumer_s * self,
             send_write_request(s);
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
-            s->mode = 1;
+            s->mode = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, s->dst_buffer, s->offset);
             }
-- 
2.43.0


From c2bfc198e5850ae4dc267ea3eee49caf4d6b9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 30/55] fix: async sink keeps only contiguous data on overflow

---
 src/stream/async_sink.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 0afc255..6e8f01e 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -17,6 +17,11 @@
 #include "embc/stream/async_sink.h"
 #include "embc.h"
 
+enum mode_e {
+    MODE_CLOSED = 0,
+    MODE_OPEN = 1,
+    MODE_OVERFLOW = 2,  // open, but the destination buffer is full
+};
 
 static void send_write_request(struct embc_stream_sink_s * self) {
     struct embc_stream_transaction_s t;
@@ -53,7 +58,7 @@ static void send(struct embc_stream_consumer_s * self,
     switch (transaction->type) {
         case EMBC_STREAM_IOCTL_OPEN: {
             transaction->file_id = 1;
-            s->mode = 1;
+            s->mode = MODE_OPEN;
             s->offset = 0;
             s->producer->send(s->producer, transaction);
             if (s->dst_buffer) {
@@ -68,8 +73,10 @@ static void send(struct embc_stream_consumer_s * self,
                 s->write_fn(s->write_user_data, transaction->data.ioctl_write.ptr, transaction->length);
             }
             if (s->dst_buffer) {
-                if (s->dst_length < (s->offset + transaction->length)) {
+                if ((MODE_OVERFLOW == s->mode) || (s->dst_length < (s->offset + transaction->length))) {
                     EMBC_LOGW("async_sink buffer overflow");
+                    s->mode = MODE_OVERFLOW; // later data would not be contiguous
+                    transaction->status = EMBC_ERROR_FULL;
                 } else {
                     embc_memcpy(s->dst_buffer + s->offset,
                            transaction->data.ioctl_write.ptr,
@@ -81,7 +88,7 @@ static void send(struct embc_stream_consumer_s * self,
             send_write_request(s);
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
-            s->mode = 0;
+            s->mode = MODE_CLOSED;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, s->dst_buffer, s->offset);
             }
-- 
2.43.0


From f208c029198f204a7df59cc51ef414086cf6a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 31/55] fix: async sink responds to noop and flush

---
 src/stream/async_sink.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 6e8f01e..75cce96 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -87,6 +87,11 @@ static void send(struct embc_stream_consumer_s * self,
             s->producer->send(s->producer, transaction);
             send_write_request(s);
             break;
+        case EMBC_STREAM_IOCTL_NOOP:  /* intentional fall-through. */
+        case EMBC_STREAM_IOCTL_FLUSH:
+            transaction->status = 0;
+            s->producer->send(s->producer, transaction);
+            break;
         case EMBC_STREAM_IOCTL_CLOSE:
             s->mode = MODE_CLOSED;
             if (s->done_fn) {
-- 
2.43.0


From 43a0179d8a28eab52e2258de8e48397efe438e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 32/55] fix: async sink accepts data again after a new receive

---
 src/stream/async_sink.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 75cce96..f0bb29e 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -155,6 +155,9 @@ void embc_stream_sink_receive(
     self->done_fn = done_fn;
     self->done_user_data = done_user_data;
     self->offset = 0;
+    if (MODE_OVERFLOW == self->mode) {
+        self->mode = MODE_OPEN;
+    }
     if (send_connect && self->mode) {
         send_event(self, EMBC_STREAM_EVENT_CONNECT);
         send_write_request(self);
-- 
2.43.0


From da02343eb7190e8c406b02b859c8bb29ac0015af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 33/55] fix: framer sends nothing behind a resync until the
 peer acknowledged it

A peer which lost the resync command acknowledged the frames behind it
based upon its old receive state, and its acknowledgement bitmap confirmed
the resync that it never received.  The messages which followed were then
confirmed but discarded as duplicates.
---
 src/stream/framer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 7c6fcf2..eaff3c7 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -609,6 +609,13 @@ static bool tx_window_is_open(struct embc_framer_s * self) {
     struct embc_buffer_s * next = embc_list_entry(item, struct embc_buffer_s, item);
     item = embc_list_peek_head(&self->tx_buffers_active);
     struct tx_buf_s * oldest = embc_list_entry(item, struct tx_buf_s, item);
+    struct embc_framer_header_s * hdr = buffer_hdr(oldest->b);
+    if ((0 == hdr->port) && (EMBC_FRAMER_PORT0_RESYNC == hdr_port_def(hdr))) {
+        // The receiver only accepts the following frames once it processed the
+        // resync: it may otherwise acknowledge them, and through its
+        // bitmask also the resync, based upon its old state.
+        return false;
+    }
     uint8_t delta = (hdr_frame_id(buffer_hdr(next)) - hdr_frame_id(buffer_hdr(oldest->b))) & EMBC_FRAMER_ID_MASK;
     return (delta < EMBC_FRAMER_OUTSTANDING_FRAMES_MAX);
 }
-- 
2.43.0


From eb9de6327ea200c6aaf70cc5395520d6c3970c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 34/55] fix: framer ignores the late acknowledgement of an
 earlier frame with the same id

---
 src/stream/framer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index eaff3c7..cf53717 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -644,6 +644,10 @@ static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_
     struct tx_buf_s * t_match = find_tx(self, frame_id);
     if (0 == t_match) {
         EMBC_LOGW("ack unknown_frame_id=0x%02x", (int) frame_id);
+    } else if ((buffer_hdr(t_match->b)->port != ack_hdr->port)
+            || (ack_hdr->port && (buffer_hdr(t_match->b)->message_id != ack_hdr->message_id))) {
+        // late ack of an earlier frame with the same frame_id
+        EMBC_LOGW("ack stale frame_id=0x%02x", (int) frame_id);
     } else {
         EMBC_LOGD("ack frame_id=%d", (int) frame_id);
         // update current item status.
-- 
2.43.0


From 9567287021023c46c2f6993d109b5db7031c71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:01 +0000
Subject: [PATCH 35/55] fix: mblock size computation does not overflow

---
 src/memory/block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 84e36f5..f6312be 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -47,7 +47,7 @@ void embc_mblock_finalize(struct embc_mblock_s * self) {
 }
 
 static inline int32_t size_to_blocks(struct mblock_s * s, int32_t size) {
-    return (size + s->block_size - 1) / s->block_size;
+    return (size / s->block_size) + ((size % s->block_size) ? 1 : 0);
 }
 
 void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
-- 
2.43.0


From ee59387eeaf5d6f103aa30706a4ba474c0ed3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 36/55] fix: async sink requests data only while the stream is
 open

---
 include/embc/stream/async_sink.h |  1 +
 src/stream/async_sink.c          | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/embc/stream/async_sink.h b/include/embc/stream/async_sink.h
index e5f8576..77b1275 100644
--- a/include/embc/stream/async_sink.h
+++ b/include/embc/stream/async_sink.h
@@ -59,6 +59,7 @@ struct embc_stream_sink_s {
     uint8_t * transaction_buffer;
     uint16_t transaction_length;
     uint8_t mode;
+    uint8_t session;
     uint8_t * dst_buffer;
     uint32_t dst_length;
     uint32_t offset;
diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index f0bb29e..d4adf2c 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -59,6 +59,7 @@ static void send(struct embc_stream_consumer_s * self,
         case EMBC_STREAM_IOCTL_OPEN: {
             transaction->file_id = 1;
             s->mode = MODE_OPEN;
+            ++s->session;
             s->offset = 0;
             s->producer->send(s->producer, transaction);
             if (s->dst_buffer) {
@@ -68,7 +69,8 @@ static void send(struct embc_stream_consumer_s * self,
             }
             break;
         }
-        case EMBC_STREAM_IOCTL_WRITE:
+        case EMBC_STREAM_IOCTL_WRITE: {
+            uint8_t session = s->session;
             if (s->write_fn) {
                 s->write_fn(s->write_user_data, transaction->data.ioctl_write.ptr, transaction->length);
             }
@@ -85,8 +87,12 @@ static void send(struct embc_stream_consumer_s * self,
                 }
             }
             s->producer->send(s->producer, transaction);
-            send_write_request(s);
+            // the producer may close, and even open again, upon the response
+            if (s->mode && (session == s->session)) {
+                send_write_request(s);
+            }
             break;
+        }
         case EMBC_STREAM_IOCTL_NOOP:  /* intentional fall-through. */
         case EMBC_STREAM_IOCTL_FLUSH:
             transaction->status = 0;
-- 
2.43.0


From e20a6d430d86420f50d1eef2ca5e9672e28e5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 37/55] fix: async source honors the mtu of the write request

---
 src/stream/async_source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index cf1d62f..797d2ea 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -48,6 +48,7 @@ static void send(struct embc_stream_producer_s * self,
             uint32_t remaining = s->source_length - s->tx_offset;
             uint8_t * buffer;
             if (!sz) {
+                uint16_t mtu = transaction->data.event_write_request_producer_buffer.mtu;
                 if (s->transaction_length) {
                     sz = s->transaction_length;
                     buffer = s->transaction_buffer;
@@ -55,6 +56,9 @@ static void send(struct embc_stream_producer_s * self,
                     sz = sizeof(s->transaction_buffer);
                     buffer = (uint8_t *) &s->transaction_buffer;
                 }
+                if (mtu && (mtu < sz)) {
+                    sz = mtu;
+                }
             } else {
                 buffer = transaction->data.event_write_request_consumer_buffer.ptr;
             }
-- 
2.43.0


From 9e51e0875cdd2c13e613c999680827006d014bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 38/55] fix: framer delivers the frames it acknowledged before
 it resynchronizes

---
 src/stream/framer.c | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index cf53717..c80ea9d 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -366,17 +366,6 @@ static void rx_complete_queued_or_set_timeout(struct embc_framer_s *self) {
     }
 }
 
-static void rx_purge_queued(struct embc_framer_s *self) {
-    struct embc_list_s *item;
-    struct embc_buffer_s *b;
-    embc_list_foreach(&self->rx_pending, item) {
-        b = embc_list_entry(item, struct embc_buffer_s, item);
-        embc_list_remove(&b->item);
-        EMBC_LOGD2("rx_purge_queued %p", (void *) b);
-        embc_buffer_free(b);
-    }
-}
-
 struct embc_buffer_s * embc_framer_construct_ack_from_header(
         struct embc_framer_s *self,
         struct embc_framer_header_s *hdr,
@@ -736,7 +725,7 @@ static void rx_hook_fn(
                 (int) hdr.frame_id, (int) port_def, (void *) frame);
     if ((0 == hdr.port) && (EMBC_FRAMER_PORT0_RESYNC == port_def)) {
         EMBC_LOGD("rx_hook_fn resync command");
-        rx_purge_queued(self);
+        rx_complete_queued(self); // acknowledged, so must be delivered
         self->rx_frame_id = frame_id_incr(frame_id);
         self->rx_frame_bitmask = EMBC_FRAMER_ACK_MASK_SYNC >> 1;
         ack_frame_bitmask = BITMAP_CURRENT;
@@ -773,7 +762,7 @@ static void rx_hook_fn(
             ack_frame_bitmask = self->rx_frame_bitmask << (-frame_delta);
         } else {
             EMBC_LOGD("rx_hook_fn completely out of order: assume resync required.");
-            rx_purge_queued(self);
+            rx_complete_queued(self); // acknowledged, so must be delivered
             ack_frame_bitmask = BITMAP_CURRENT;
             self->rx_frame_id = frame_id_incr(frame_id);
             self->rx_frame_bitmask = BITMAP_CURRENT >> 1;
@@ -1102,7 +1091,6 @@ void embc_framer_send_payload(
 
 void embc_framer_resync(struct embc_framer_s * self) {
     EMBC_DBC_NOT_NULL(self);
-    rx_purge_queued(self);
     tx_purge_queued(self);
     embc_framer_send_payload(self, 0, 0, EMBC_FRAMER_PORT0_RESYNC, 0, 0);
 }
-- 
2.43.0


From d38d4e42e9941f6289a34b36ad78ae4d3f9395c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:38 +0000
Subject: [PATCH 39/55] fix: pattern_32a counts duplicates up to half of the
 period

---
 src/pattern_32a.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index ddfe641..3bdc83e 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -180,13 +180,13 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
     while (((sp_old + delta) % SHIFT_PERIOD) != sp_now) {
         delta += (1 << 16);
     }
-    delta *= 2; // total pattern value = 2 words
+    delta = (2 * delta) + incr; // total pattern value = 2 words
 
     if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
-        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
+        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta;
     } else {
-        self->missing_count += incr + delta;
+        self->missing_count += delta;
     }
 
     // Advance to next expected
-- 
2.43.0


From 7c1c221636fda0792aaf028ccc4e87e1805bca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 40/55] fix: async sink has at most one write request
 outstanding when its destination changes

---
 include/embc/stream/async_sink.h | 1 +
 src/stream/async_sink.c          | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/embc/stream/async_sink.h b/include/embc/stream/async_sink.h
index 77b1275..a10569b 100644
--- a/include/embc/stream/async_sink.h
+++ b/include/embc/stream/async_sink.h
@@ -60,6 +60,7 @@ struct embc_stream_sink_s {
     uint16_t transaction_length;
     uint8_t mode;
     uint8_t session;
+    uint8_t request_pending;
     uint8_t * dst_buffer;
     uint32_t dst_length;
     uint32_t offset;
diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index d4adf2c..ce9e55a 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -38,6 +38,7 @@ static void send_write_request(struct embc_stream_sink_s * self) {
         t.data.event_write_request_producer_buffer.transactions_max = 1;
     }
     if (self->producer) {
+        self->request_pending = 1;
         self->producer->send(self->producer, &t);
     }
 }
@@ -61,6 +62,7 @@ static void send(struct embc_stream_consumer_s * self,
             s->mode = MODE_OPEN;
             ++s->session;
             s->offset = 0;
+            s->request_pending = 0;
             s->producer->send(s->producer, transaction);
             if (s->dst_buffer) {
                 send_write_request(s);
@@ -166,6 +168,8 @@ void embc_stream_sink_receive(
     }
     if (send_connect && self->mode) {
         send_event(self, EMBC_STREAM_EVENT_CONNECT);
-        send_write_request(self);
+        if (!self->request_pending) {  // the transaction buffer is still in use
+            send_write_request(self);
+        }
     }
 }
-- 
2.43.0


From ae059aedf2075331cdb502a5f48382e7cae80313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 41/55] fix: EMBC_LOG_ALERT compiles

---
 include/embc/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index 5edb386..b0642ae 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -239,7 +239,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
 /** Log a emergency using printf-style arguments. */
 #define EMBC_LOG_EMERGENCY(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_EMERGENCY, __VA_ARGS__)
 /** Log a alert using printf-style arguments. */
-#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, format, __VA_ARGS__)
+#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, __VA_ARGS__)
 /** Log a critical failure using printf-style arguments. */
 #define EMBC_LOG_CRITICAL(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_CRITICAL, __VA_ARGS__)
 /** Log an error using printf-style arguments. */
-- 
2.43.0


From a4f4fd7671891ed51c07c371b8f911d2d933d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 42/55] fix: log level names are separate strings

---
 src/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index b55a655..8e87177 100644
--- a/src/log.c
+++ b/src/log.c
@@ -24,10 +24,10 @@ char const * const embc_log_level_str[EMBC_LOG_LEVEL_ALL + 1] = {
         "CRITICAL",
         "ERROR",
         "WARN",
-        "NOTICE"
+        "NOTICE",
         "INFO",
         "DEBUG",
-        "DEBUG2"
+        "DEBUG2",
         "DEBUG3",
         "ALL"
 };
-- 
2.43.0


From edbb1cf6b9237bf022558028c5e064355999b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 43/55] fix: framer compares the message id of port 0
 acknowledgements

---
 src/stream/framer.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index c80ea9d..8f807aa 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -628,13 +628,23 @@ static void transmit_queued(struct embc_framer_s * self) {
     }
 }
 
+static bool is_ack_for(struct embc_framer_header_s *ack_hdr, struct embc_framer_header_s *hdr) {
+    if (ack_hdr->port != hdr->port) {
+        return false;
+    } else if (ack_hdr->message_id == hdr->message_id) {
+        return true;
+    }
+    // resync may also be acknowledged with the command as the message_id.
+    return ((0 == hdr->port) && (EMBC_FRAMER_PORT0_RESYNC == hdr_port_def(hdr))
+            && (EMBC_FRAMER_PORT0_RESYNC == ack_hdr->message_id));
+}
+
 static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_s *ack_hdr) {
     uint8_t frame_id = hdr_frame_id(ack_hdr);
     struct tx_buf_s * t_match = find_tx(self, frame_id);
     if (0 == t_match) {
         EMBC_LOGW("ack unknown_frame_id=0x%02x", (int) frame_id);
-    } else if ((buffer_hdr(t_match->b)->port != ack_hdr->port)
-            || (ack_hdr->port && (buffer_hdr(t_match->b)->message_id != ack_hdr->message_id))) {
+    } else if (!is_ack_for(ack_hdr, buffer_hdr(t_match->b))) {
         // late ack of an earlier frame with the same frame_id
         EMBC_LOGW("ack stale frame_id=0x%02x", (int) frame_id);
     } else {
-- 
2.43.0


From b585bf2d2a47b9c715387be73f30b8ff45fda391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 44/55] fix: event ids stay valid after the event counter
 reaches its limit

---
 src/event_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index 8cc902c..deafbe3 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -73,6 +73,9 @@ int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
     } else {
         ev = EVGET(embc_list_remove_head(&self->events_free));
     }
+    if (INT32_MAX == self->event_counter) {
+        self->event_counter = 0;  // event_id is always positive.
+    }
     ev->event_id = ++self->event_counter;
     ev->timestamp = timestamp;
     ev->cbk_fn = cbk_fn;
-- 
2.43.0


From 5e8b2ec4b969f21d57cc9517b3f6974f90f1d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 45/55] event_manager: simulation hook for the event counter
 (off by default)

---
 src/event_manager.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index deafbe3..0915d6c 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -28,6 +28,11 @@ struct event_s {
     struct embc_list_s node;
 };
 
+#ifdef EMBC_DST
+// simulation hook: the number of events which were scheduled before
+extern int32_t embc_dst_event_counter;
+#endif
+
 #define EVGET(item) embc_list_entry(item, struct event_s, node)
 
 struct embc_evm_s {
@@ -41,6 +46,9 @@ struct embc_evm_s * embc_evm_allocate() {
     if (self) {
         embc_list_initialize(&self->events_pending);
         embc_list_initialize(&self->events_free);
+#ifdef EMBC_DST
+        self->event_counter = embc_dst_event_counter;
+#endif
     }
     return self;
 }
-- 
2.43.0


From 5ab28179366aedabb1cc8b9c0ece14e4012960be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 46/55] fix: the Python buffer bindings follow the C interface

---
 py/embc/memory/buffer.py | 42 +++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 668f8df..53755df 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -2,13 +2,18 @@
 
 import os
 import ctypes
-from ctypes import cdll, Structure, POINTER, pointer, cast, \
+from ctypes import cdll, Structure, POINTER, pointer, cast, CFUNCTYPE, \
     c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
+from embc import lib as embc_lib
 from ..collections.list import embc_list_s
 
 
+class embc_buffer_manager_s(Structure):
+    pass
+
+
 class embc_buffer_s(Structure):
     _fields_ = [
         ('data', POINTER(c_uint8)),
@@ -17,6 +22,8 @@ class embc_buffer_s(Structure):
         ('length', c_uint16),
         ('reserve', c_uint16),
         ('buffer_id', c_uint16),
+        ('flags', c_uint16),
+        ('manager', POINTER(embc_buffer_manager_s)),
         ('item', embc_list_s),
     ]
 
@@ -58,25 +65,38 @@ class embc_buffer_s(Structure):
 
 
 
-# struct embc_buffer_allocator_s * embc_buffer_initialize(embc_size_t const * sizes, embc_size_t length);
-initialize = _dll.embc_buffer_initialize
+embc_buffer_manager_s._fields_ = [
+    ('free', CFUNCTYPE(None, POINTER(embc_buffer_manager_s), POINTER(embc_buffer_s))),
+]
+
+
+# struct embc_buffer_allocator_s * embc_buffer_allocator_new(embc_size_t const * sizes, embc_size_t length);
+initialize = _dll.embc_buffer_allocator_new
 initialize.restype = c_void_p
 initialize.argtypes = [POINTER(c_size_t), c_size_t]
 
-# void embc_buffer_finalize(struct embc_buffer_allocator_s * self);
-finalize = _dll.embc_buffer_finalize
-finalize.restype = None
-finalize.argtypes = [c_void_p]
+# void embc_buffer_allocator_finalize(struct embc_buffer_allocator_s * self);
+_allocator_finalize = _dll.embc_buffer_allocator_finalize
+_allocator_finalize.restype = None
+_allocator_finalize.argtypes = [c_void_p]
+
+
+def finalize(allocator):
+    _allocator_finalize(allocator)
+    embc_lib.free(allocator)
+
 
 # struct embc_buffer_s * embc_buffer_alloc(struct embc_buffer_allocator_s * self, embc_size_t size);
 alloc = _dll.embc_buffer_alloc
 alloc.restype = POINTER(embc_buffer_s)
 alloc.argtypes = [c_void_p, c_size_t]
 
-# void embc_buffer_free(struct embc_buffer_s * buffer);
-free = _dll.embc_buffer_free
-free.restype = None
-free.argtypes = [POINTER(embc_buffer_s)]
+
+# static inline void embc_buffer_free(struct embc_buffer_s * buffer);
+def free(buffer):
+    b = buffer if isinstance(buffer, embc_buffer_s) else buffer.contents
+    b.manager.contents.free(b.manager, b)
+
 
 # void embc_buffer_write(struct embc_buffer_s * buffer,
 #                        void const * data,
-- 
2.43.0


From 873ccfc8f1198fae20299a502844fce525b99ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 47/55] fix: framer ignores repeated SOF also while it
 resynchronizes

---
 src/stream/framer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 8f807aa..2eaf0cf 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -859,6 +859,12 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
             continue;
         }
         sz = count - i;
+        if (1 == sz) {
+            self->rx_state = ST_SOF_UNSYNC; // more SOF may follow
+            goto exit;
+        } else if (b[1] == SOF) {
+            continue;  // repeated SOF
+        }
         switch (embc_framer_validate(b, sz, &length)) {
             case EMBC_ERROR_EMPTY:
                 self->rx_remaining = HEADER_SIZE - sz;
-- 
2.43.0


From cb6e272682808dc6f6656fd43da241ede9ba49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 48/55] fix: embc.collections.list.new returns the new item

---
 py/embc/collections/list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/embc/collections/list.py b/py/embc/collections/list.py
index 6c72462..a25b577 100644
--- a/py/embc/collections/list.py
+++ b/py/embc/collections/list.py
@@ -20,3 +20,4 @@ def reset(i):
 def new():
     i = embc_list_s()
     reset(i)
+    return i
-- 
2.43.0


From b9c1e03da7c76bf1dfc4b58f4366765e6f12d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 49/55] fix: Python write_str_truncate returns whether the
 string fit

---
 py/embc/memory/buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 53755df..8c0e874 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -3,7 +3,7 @@
 import os
 import ctypes
 from ctypes import cdll, Structure, POINTER, pointer, cast, CFUNCTYPE, \
-    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p
+    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p, c_bool
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
 from embc import lib as embc_lib
@@ -122,7 +122,7 @@ write_str.argtypes = [POINTER(embc_buffer_s), c_char_p]
 # bool embc_buffer_write_str_truncate(struct embc_buffer_s * buffer,
 #                                     char const * str);
 write_str_truncate = _dll.embc_buffer_write_str_truncate
-write_str_truncate.restype = None
+write_str_truncate.restype = c_bool
 write_str_truncate.argtypes = [POINTER(embc_buffer_s), c_char_p]
 
 # void embc_buffer_write_u8(struct embc_buffer_s * buffer, uint8_t value);
-- 
2.43.0


From bef3ba76cff3de86187956ef3990631b721d1734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 50/55] fix: the Python framer times retransmissions with the
 monotonic clock

---
 py/embc/stream/framer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/embc/stream/framer.py b/py/embc/stream/framer.py
index 1587805..76b5018 100644
--- a/py/embc/stream/framer.py
+++ b/py/embc/stream/framer.py
@@ -166,7 +166,7 @@ class Framer:
         self.allocator = embc_buffer.initialize(sizes, len(sizes))
         self._timer_cbk = None
 
-        self.time_offset = time.time()  # seconds
+        self.time_offset = time.monotonic()  # seconds
         self.timeout = None  # seconds
         self.hal_tx = lambda x: None
         self._pyport = [[None, None]] * 256
@@ -221,7 +221,7 @@ class Framer:
 
     @property
     def current_time(self):
-        return time.time() - self.time_offset
+        return time.monotonic() - self.time_offset
 
     def _hal_time_get(self, user_data):
         return int(self.current_time * 2 ** 30)
-- 
2.43.0


From 845457699638178de2f0891277996111f9ff9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 51/55] fix: the Python framer completes a transmission whose
 write failed

---
 py/embc/stream/framer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/embc/stream/framer.py b/py/embc/stream/framer.py
index 76b5018..621c2ca 100644
--- a/py/embc/stream/framer.py
+++ b/py/embc/stream/framer.py
@@ -216,8 +216,10 @@ class Framer:
         hal_rx_buffer(self.framer, msg, payload_len)
 
     def _hal_tx(self, user_data, buffer):
-        self.hal_tx(buffer[0].read_all())
-        hal_tx_done(self.framer, buffer)
+        try:
+            self.hal_tx(buffer[0].read_all())
+        finally:  # even on error: the framer retransmits
+            hal_tx_done(self.framer, buffer)
 
     @property
     def current_time(self):
-- 
2.43.0


From 7f6a0829598b1ab490a9dbc5dd3c83475f6d3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 52/55] fix: framer_qual measures time with the monotonic clock

---
 py/bin/framer_qual.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/py/bin/framer_qual.py b/py/bin/framer_qual.py
index 7159439..9cee543 100644
--- a/py/bin/framer_qual.py
+++ b/py/bin/framer_qual.py
@@ -114,10 +114,10 @@ class PingQueue:
         self._frames_tx_error = 0
         self._frames_missing = 0
         self._frames_timeout = 0
-        self._delay = time.time()
+        self._delay = time.monotonic()
 
     def log_running_stats(self):
-        t = time.time()
+        t = time.monotonic()
         dt = t - self._time_last
         if dt > 1.0:
             frames = self._frames_completed - self._frames_completed_last
@@ -132,7 +132,7 @@ class PingQueue:
             self._time_last = t
 
     def log_total_stats(self):
-        t = time.time()
+        t = time.monotonic()
         dt = t - self._time_start
         frames = self._frames_completed
         length = frames * self._generator.payload_size
@@ -145,7 +145,7 @@ class PingQueue:
 
     def process(self):
         queue = []
-        t = time.time()
+        t = time.monotonic()
         if self._time_start is None:
             self._time_start = t
             self._time_last = t
@@ -160,7 +160,7 @@ class PingQueue:
                 queue.append(msg)
         self._queue = queue
 
-        if time.time() >= self._delay:
+        if time.monotonic() >= self._delay:
             rx_available = RX_PING_DEPTH - self._rx_pending_count()
             tx_available = TX_PING_DEPTH - self._tx_done_pending_count()
             available = min(rx_available, tx_available)
@@ -232,7 +232,7 @@ class PingQueue:
                      self._tx_done_pending_count(),
                      self._rx_pending_count())
             # delay to prevent far-end overflow during loss of 1 direction
-            self._delay = time.time() + DELAY_TIME
+            self._delay = time.monotonic() + DELAY_TIME
         self.process()
 
 
@@ -287,7 +287,7 @@ class MasterFramer:
 
     def open(self):
         self._serial.open()
-        self._last_time = time.time()
+        self._last_time = time.monotonic()
         self._framer.resync()
 
     def close(self):
@@ -301,7 +301,7 @@ class MasterFramer:
         if self._ping.count != 0:
             self._ping.process()
         else:
-            t = time.time()
+            t = time.monotonic()
             if t - self._last_time > 1.0:
                 self._last_time = t
                 print(self._framer.status)
-- 
2.43.0


From 0c41a8125054ed806320037e5d6dee2bfda4e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 53/55] fix: framer_qual counts only pings without a response
 as missing

---
 py/bin/framer_qual.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py/bin/framer_qual.py b/py/bin/framer_qual.py
index 9cee543..ad4601c 100644
--- a/py/bin/framer_qual.py
+++ b/py/bin/framer_qual.py
@@ -183,10 +183,15 @@ class PingQueue:
     def _ping_rx_resync(self, message_id, data):
         for idx in range(len(self._queue)):
             msg = self._queue[idx]
+            if msg.response_received:
+                continue
             if msg.message_id == message_id and msg.payload == data:
                 log.info('resync message_id=%d to index %d', message_id, idx)
-                self._frames_missing += idx
-                del self._queue[:idx]
+                # keep frames which have a response, but still await tx_done
+                skipped = self._queue[:idx]
+                kept = [m for m in skipped if m.response_received]
+                self._frames_missing += len(skipped) - len(kept)
+                self._queue[:idx] = kept
                 return msg
         log.warning('rx resync failed message_id=%d (frame from previous ping session?)',
                     message_id)
@@ -196,7 +201,7 @@ class PingQueue:
         if 0 == self._rx_pending_count(): # error
             log.warning("rx ping response %d, but not expected" % message_id)
             return
-        msg = self._queue[0]
+        msg = [m for m in self._queue if not m.response_received][0]
         if msg.message_id != message_id:
             log.debug('rx ping response message_id mismatch: expected %d != received %d',
                       msg.message_id, message_id)
-- 
2.43.0


From 08181d8e93706c0b55e0f5995b37795cefcdf3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 54/55] fix: Python buffer write accepts any bytes-like value,
 as documented

---
 py/embc/memory/buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 8c0e874..f40d87c 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -54,6 +54,7 @@ class embc_buffer_s(Structure):
 
         :param b: The bytes-like value
         """
+        b = bytes(b)
         v = ctypes.create_string_buffer(b)
         write(self, v, len(b))
 
-- 
2.43.0


From 5cee080df1002308063678d56830fee187e0ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:22 +0000
Subject: [PATCH 55/55] fix: framer sends the resync ahead of what the
 callbacks of aborted sends send

---
 src/stream/framer.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 2eaf0cf..ea387d5 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -436,15 +436,19 @@ static void tx_done_notify(struct embc_framer_s * self, struct embc_framer_heade
     }
 }
 
-static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
-    struct embc_framer_header_s hdr = *buffer_hdr(t->b);
-    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
+static void tx_release(struct embc_framer_s * self, struct tx_buf_s * t) {
     if (!t->hal_owned) { // else freed by embc_framer_hal_tx_done()
         embc_buffer_free(t->b);
     }
     t->b = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
+}
+
+static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
+    struct embc_framer_header_s hdr = *buffer_hdr(t->b);
+    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
+    tx_release(self, t);
     tx_done_notify(self, &hdr, status);
 }
 
@@ -461,22 +465,26 @@ static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t s
     }
 }
 
-static void tx_purge_queued(struct embc_framer_s * self) {
-    struct embc_list_s active;
+static void tx_purge_and_resync(struct embc_framer_s * self) {
+    struct embc_framer_header_s active[EMBC_FRAMER_OUTSTANDING_FRAMES_MAX];
+    embc_size_t active_count = 0;
     struct embc_list_s queue;
     struct embc_list_s * item;
-    embc_list_initialize(&active);
     embc_list_initialize(&queue);
-    // Detach first, since the tx_done callbacks may send again.
     while (0 != (item = embc_list_remove_head(&self->tx_buffers_active))) {
-        embc_list_add_tail(&active, item);
+        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
+        active[active_count++] = *buffer_hdr(t->b);
+        tx_release(self, t);
     }
     while (0 != (item = embc_list_remove_head(&self->tx_queue))) {
         embc_list_add_tail(&queue, item);
     }
-    while (0 != (item = embc_list_remove_head(&active))) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+
+    // The tx_done callbacks may send again: these frames must follow the resync,
+    // since the receiver discards earlier frames once it processed the resync.
+    embc_framer_send_payload(self, 0, 0, EMBC_FRAMER_PORT0_RESYNC, 0, 0);
+    for (embc_size_t i = 0; i < active_count; ++i) {
+        tx_done_notify(self, &active[i], EMBC_ERROR_ABORTED);
     }
     while (0 != (item = embc_list_remove_head(&queue))) {
         struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
@@ -1107,8 +1115,7 @@ void embc_framer_send_payload(
 
 void embc_framer_resync(struct embc_framer_s * self) {
     EMBC_DBC_NOT_NULL(self);
-    tx_purge_queued(self);
-    embc_framer_send_payload(self, 0, 0, EMBC_FRAMER_PORT0_RESYNC, 0, 0);
+    tx_purge_and_resync(self);
 }
 
 struct embc_buffer_s * embc_framer_alloc(
-- 
2.43.0

