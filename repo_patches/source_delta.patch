From 9860d864e6b410b91d78045e0f921a9f0b2982cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:05 +0000
Subject: [PATCH 1/4] fix: only close the stored channel when its own packet
 times out

---
 src/ibc/relay.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index c22860f..a0f7cc7 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -54,9 +54,10 @@ pub fn ibc_packet_timeout(
     _env: Env,
     msg: IbcPacketTimeoutMsg,
 ) -> Result<IbcBasicResponse, ContractError> {
-    // If the channel is ordered, close it.
+    // If the packet's channel is the stored channel and it is ordered, close it.
+    // The packet may belong to an older channel, which says nothing about the stored one.
     let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
-    if channel_state.is_ordered() {
+    if channel_state.is_ordered() && channel_state.channel.endpoint == msg.packet.src {
         channel_state.close();
         state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
     }
-- 
2.43.0


From 0f9ae9b309e7fa9b579a5abe699ba00157989d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:05 +0000
Subject: [PATCH 2/4] fix: refuse to finish opening a channel while another is
 open

---
 src/ibc/handshake.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ibc/handshake.rs b/src/ibc/handshake.rs
index 8d731a3..ce410c8 100644
--- a/src/ibc/handshake.rs
+++ b/src/ibc/handshake.rs
@@ -43,6 +43,7 @@ pub fn ibc_channel_open(
 ///
 /// This function returns an error if:
 ///
+/// - Another channel is already open.
 /// - The host port is invalid.
 /// - The version metadata is invalid.
 /// - The ICA address is empty.
@@ -149,6 +150,13 @@ mod ibc_channel_open {
     ) -> Result<IbcBasicResponse, ContractError> {
         let mut state = state::STATE.load(deps.storage)?;
 
+        // several handshakes may be in progress at once, only one channel can be active
+        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
+            if channel_state.is_open() {
+                return Err(ContractError::ActiveChannelAlreadySet);
+            }
+        }
+
         // portID cannot be host chain portID
         // this is not possible since it is wasm.CONTRACT_ADDRESS
         // but we check it anyway since this is a recreation of the go code
-- 
2.43.0


From a3b99bf837f3f7b7b8fd1bac93d530aeef5be33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:05 +0000
Subject: [PATCH 3/4] fix: forget the pending queries of a packet acknowledged
 with an error

---
 src/ibc/relay.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index a0f7cc7..c994b59 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -143,6 +143,8 @@ mod ibc_packet_ack {
         let state = state::STATE.load(deps.storage)?;
         let error_event = events::packet_ack::error(&packet, &err);
 
+        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
+
         if let Some(contract_addr) = state.callback_address {
             let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                 ica_acknowledgement: AcknowledgementData::Error(err.clone()),
-- 
2.43.0


From 5512eb408572c87aeb50f59a821ead53a5667bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:05 +0000
Subject: [PATCH 4/4] fix: report a query result only for packets that
 contained queries

---
 src/ibc/relay.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index c994b59..0e37203 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -142,15 +142,18 @@ mod ibc_packet_ack {
     ) -> Result<IbcBasicResponse, ContractError> {
         let state = state::STATE.load(deps.storage)?;
         let error_event = events::packet_ack::error(&packet, &err);
+        let query_result = state::PENDING_QUERIES
+            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
+            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));
 
         state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
 
         if let Some(contract_addr) = state.callback_address {
             let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
-                ica_acknowledgement: AcknowledgementData::Error(err.clone()),
+                ica_acknowledgement: AcknowledgementData::Error(err),
                 original_packet: packet,
                 relayer,
-                query_result: Some(query_msg::IcaQueryResult::Error(err)),
+                query_result,
             }
             .into_cosmos_msg(contract_addr)?;
 
-- 
2.43.0

