From f701c062a5fdea334e4d5576fafe7ee1e02b5157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 01/26] fix: pad encrypted packets with random bytes

---
 session/2_session_encrypted.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index bb479c0..3050a2a 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -250,7 +250,7 @@ export class SessionEncrypted extends Session implements Session {
     payloadWriter.writeInt64(this.state.serverSalt);
     payloadWriter.writeInt64(this.#id);
     writeMessage(payloadWriter, message);
-    payloadWriter.write(new Uint8Array(mod(-(payloadWriter.length + 12), 16) + 12));
+    payloadWriter.write(crypto.getRandomValues(new Uint8Array(mod(-(payloadWriter.length + 12), 16) + 12)));
 
     const payload = payloadWriter.buffer;
 
-- 
2.43.0


From 1c2c0743110e3c516869ddfaa29764f56c1d28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:37 +0000
Subject: [PATCH 02/26] fix: keep the class of retry and public key errors
 across workers

---
 client/0_worker_error.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/0_worker_error.ts b/client/0_worker_error.ts
index 45b9043..6b236c2 100644
--- a/client/0_worker_error.ts
+++ b/client/0_worker_error.ts
@@ -18,13 +18,13 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { AccessError, ConnectionError, InputError, TLError, TransportError } from "../0_errors.ts";
+import { AccessError, ConnectionError, InputError, PublicKeyError, RetryError, TLError, TransportError } from "../0_errors.ts";
 import { getLogger } from "../1_utilities.ts";
 import { TelegramError, type TelegramErrorParams } from "../3_errors.ts";
 import { constructTelegramError } from "../4_errors.ts";
 
 export interface WorkerError {
-  name: "TelegramError" | "ConnectionError" | "AccessError" | "InputError" | "TransportError" | "TLError";
+  name: "TelegramError" | "ConnectionError" | "AccessError" | "InputError" | "TransportError" | "TLError" | "RetryError" | "PublicKeyError";
   // deno-lint-ignore no-explicit-any
   args: any;
 }
@@ -85,6 +85,10 @@ export function deserializeWorkerError(error: WorkerError) {
       return new TransportError(error.args[0]);
     case "TLError":
       return new TLError(error.args[0], error.args[1]);
+    case "RetryError":
+      return new RetryError(error.args[0]);
+    case "PublicKeyError":
+      return new PublicKeyError(error.args[0]);
     default:
       return new TypeError("Unknown error");
   }
-- 
2.43.0


From 8472461380a98822aec852af847795594361dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:54 +0000
Subject: [PATCH 03/26] fix: refuse bots in the user-only methods getStories,
 getCommunity and getApplicationConfiguration

---
 client/2_community_manager.ts | 1 +
 client/3_account_manager.ts   | 1 +
 client/6_client.ts            | 1 +
 3 files changed, 3 insertions(+)

diff --git a/client/2_community_manager.ts b/client/2_community_manager.ts
index ee5d248..b7a28cc 100644
--- a/client/2_community_manager.ts
+++ b/client/2_community_manager.ts
@@ -55,6 +55,7 @@ export class CommunityManager {
   }
 
   async getCommunity(communityId: number): Promise<Community> {
+    this.#c.storage.assertUser("getCommunity");
     const community = await this.#mustAccessibleGetCommunity(communityId);
     if (Api.is("communityForbidden", community)) {
       throw new AccessError("Cannot access the community.");
diff --git a/client/3_account_manager.ts b/client/3_account_manager.ts
index c0c3366..ee8e1f5 100644
--- a/client/3_account_manager.ts
+++ b/client/3_account_manager.ts
@@ -665,6 +665,7 @@ export class AccountManager implements UpdateProcessor<AccountManagerUpdate, fal
 
   // deno-lint-ignore no-explicit-any
   async getApplicationConfiguration(): Promise<any> {
+    this.#c.storage.assertUser("getApplicationConfiguration");
     const result = Api.as("help.appConfig", await this.#c.invoke({ _: "help.getAppConfig", hash: 0 }));
     return AccountManager.#parseJsonValue(result.config);
   }
diff --git a/client/6_client.ts b/client/6_client.ts
index ac7871a..cb108b0 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -5060,6 +5060,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
    * @returns The retrieved stories.
    */
   async getStories(chatId: ID, storyIds: number[]): Promise<Story[]> {
+    this.storage.assertUser("getStories");
     if (!storyIds.length) {
       return [];
     }
-- 
2.43.0


From 87c279c87640972674ebf6cc54b281a3fc96fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:43 +0000
Subject: [PATCH 04/26] fix: give the sender of a chosen inline result as
 ctx.from

---
 client/4_context.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/4_context.ts b/client/4_context.ts
index 27f0402..0838169 100644
--- a/client/4_context.ts
+++ b/client/4_context.ts
@@ -393,6 +393,8 @@ export class Context {
         return this.update.callbackQuery.from;
       case "inlineQuery":
         return this.update.inlineQuery.from;
+      case "chosenInlineResult":
+        return this.update.chosenInlineResult.from;
       case "chatMember":
         return this.update.chatMember.from;
       case "myChatMember":
-- 
2.43.0


From f48569b7d266e341870f8e492bcc6d77f8376018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:34 +0000
Subject: [PATCH 05/26] fix: reject a request whose answer cannot be unpacked

---
 session/2_session_encrypted.ts | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 3050a2a..23fc10b 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -522,18 +522,27 @@ export class SessionEncrypted extends Session implements Session {
     let reader = new TLReader(body);
     const reqMsgId = reader.readInt64();
     this.#sentMessages.delete(reqMsgId);
-    let id = reader.readInt32(false);
-    if (id === GZIP_PACKED) {
-      logger.debug("unpacking compressed rpc_result");
-      reader = new TLReader(await gunzip(reader.readBytes()));
-      id = reader.readInt32(false);
-      reader.unreadInt32();
-    } else {
-      reader.unreadInt32();
+    let error: Mtproto.rpc_error | undefined;
+    try {
+      let id = reader.readInt32(false);
+      if (id === GZIP_PACKED) {
+        logger.debug("unpacking compressed rpc_result");
+        reader = new TLReader(await gunzip(reader.readBytes()));
+        id = reader.readInt32(false);
+        reader.unreadInt32();
+      } else {
+        reader.unreadInt32();
+      }
+      if (id === RPC_ERROR) {
+        logger.debug("received rpc_error from message", msgId);
+        error = Mtproto.deserializeType("rpc_error", reader);
+      }
+    } catch (err) {
+      // there will be no other answer
+      await this.handlers.onMessageFailed?.(reqMsgId, err);
+      throw err;
     }
-    if (id === RPC_ERROR) {
-      logger.debug("received rpc_error from message", msgId);
-      const error = Mtproto.deserializeType("rpc_error", reader);
+    if (error !== undefined) {
       await this.handlers.onRpcError?.(reqMsgId, error);
     } else {
       await this.handlers.onRpcResult?.(reqMsgId, reader.buffer);
-- 
2.43.0


From c86d26a3544e878f1f689d09e25cb7c0758c54f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 06/26] fix: queue acknowledgements again when the packet
 carrying them could not be sent

---
 session/2_session_encrypted.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 23fc10b..a91a170 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -351,6 +351,7 @@ export class SessionEncrypted extends Session implements Session {
     let msg_id: bigint;
     let message: message;
     let unregister: (() => void) | undefined;
+    let ackMsgId: bigint | undefined;
 
     try {
       msg_id = this.state.nextMessageId();
@@ -403,6 +404,7 @@ export class SessionEncrypted extends Session implements Session {
         };
         this.#LsendLoop.debug("msgs_ack msg_id =", ack.msg_id, "seqno =", seqno);
         this.#pendingAcks.set(ack.msg_id, msg_ids);
+        ackMsgId = ack.msg_id;
         message = {
           _: "message",
           msg_id: this.state.nextMessageId(),
@@ -420,6 +422,9 @@ export class SessionEncrypted extends Session implements Session {
     } catch (err) {
       pendingMessage.promiseWithResolvers.reject(err);
       unregister?.();
+      if (ackMsgId !== undefined) {
+        this.#onMessageFailed(ackMsgId, err);
+      }
       return;
     }
 
-- 
2.43.0


From 81080100da212aa7442959368929e424857918a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 07/26] fix: recover from a deserialization error without
 blocking the receive loop

---
 client/2_client_encrypted.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index cfa0480..c0bbae6 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -366,7 +366,7 @@ export class ClientEncrypted extends ClientAbstract {
       this.#L.debug("received update", repr(type));
     } catch (err) {
       this.#L.error("failed to deserialize update:", err);
-      await this.handlers.onDeserializationError?.();
+      drop(this.handlers.onDeserializationError?.());
       return;
     }
     if (Api.isOfEnum("Update", type) || Api.isOfEnum("Updates", type)) {
@@ -426,7 +426,7 @@ export class ClientEncrypted extends ClientAbstract {
       } catch (err) {
         sentRequest.promiseWithResolvers.reject(err);
         this.#L.error("failed to deserialize rpc_result body:", err);
-        await this.handlers.onDeserializationError?.();
+        drop(this.handlers.onDeserializationError?.());
         return;
       } finally {
         this.#sentRequests.delete(msgId);
-- 
2.43.0


From c2c5ec2420a8c6525c23d728111e4b5e6870c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 08/26] fix: reconnect with a new temporary key without
 blocking the receive loop

---
 client/2_client_encrypted.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index c0bbae6..17f7091 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -355,7 +355,7 @@ export class ClientEncrypted extends ClientAbstract {
     if (transportError.code === -404) {
       this.#L.debug("reconnecting with a new temporary auth key");
       this.disconnect();
-      await this.connect();
+      drop(this.connect());
     }
   }
 
@@ -396,7 +396,7 @@ export class ClientEncrypted extends ClientAbstract {
     if (error.error_message === "AUTH_KEY_PERM_EMPTY" || error.error_message === "ENCRYPTED_MESSAGE_INVALID") {
       this.#L.debug("reconnecting with a new temporary auth key because of", error.error_message);
       this.disconnect();
-      await this.connect();
+      drop(this.connect());
     }
 
     const request = this.#sentRequests.get(msgId);
-- 
2.43.0


From cc93ef46440d5a837acff3e08759cde2bd013e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 09/26] fix: verify the server's answers while creating an
 authorization key

---
 client/1_client_plain.ts | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/client/1_client_plain.ts b/client/1_client_plain.ts
index 919b23a..db48f4b 100644
--- a/client/1_client_plain.ts
+++ b/client/1_client_plain.ts
@@ -26,6 +26,7 @@ import { PUBLIC_KEYS, type PublicKeys, TEMPORARY_AUTH_KEY_TTL } from "../4_const
 import { PublicKeyError } from "../4_errors.ts";
 import { type SessionParams, SessionPlain } from "../4_session.ts";
 import { ClientAbstract } from "./0_client_abstract.ts";
+import { isGoodModExpFirst, isSafePrime } from "./0_password.ts";
 
 const L = getLogger("ClientPlain");
 const LcreateAuthKey = L.branch("createAuthKey");
@@ -60,10 +61,11 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     for (let i = 0; i < 10; i++) {
       try {
         LcreateAuthKey.debug(`req_pq_multi [${i + 1}]`);
-        resPq = await this.invoke({ _: "req_pq_multi", nonce });
+        const answer = await this.invoke({ _: "req_pq_multi", nonce });
 
-        assert(Mtproto.is("resPQ", resPq));
-        assertEquals(resPq.nonce, nonce);
+        assert(Mtproto.is("resPQ", answer));
+        assertEquals(answer.nonce, nonce);
+        resPq = answer;
         LcreateAuthKey.debug("got res_pq");
         break;
       } catch (err) {
@@ -141,6 +143,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     });
 
     assert(Mtproto.is("server_DH_params_ok", dhParams));
+    assertEquals(dhParams.nonce, nonce);
+    assertEquals(dhParams.server_nonce, serverNonce);
     LcreateAuthKey.debug("got server_DH_params_ok");
 
     const newNonce_ = intToBytes(newNonce, 32);
@@ -155,12 +159,18 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const answerWithHash = ige256Decrypt(dhParams.encrypted_answer, tmpAesKey, tmpAesIv);
 
     const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerWithHash.slice(20));
+    assertEquals(await sha1(Mtproto.serializeObject(dhInnerData)), answerWithHash.slice(0, 20));
+    assertEquals(dhInnerData.nonce, nonce);
+    assertEquals(dhInnerData.server_nonce, serverNonce);
     const { g, g_a: gA_, dh_prime: dhPrime_ } = dhInnerData;
     const gA = intFromBytes(gA_, { byteOrder: "big", isSigned: false });
     const dhPrime = intFromBytes(dhPrime_, { byteOrder: "big", isSigned: false });
+    assert(isSafePrime(dhPrime_, g));
+    assert(isGoodModExpFirst(gA, dhPrime));
 
     const b = getRandomInt(256, false);
     const gB = modExp(BigInt(g), b, dhPrime);
+    assert(isGoodModExpFirst(gB, dhPrime));
 
     const data = Mtproto.serializeObject({
       _: "client_DH_inner_data",
@@ -185,6 +195,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
       encrypted_data: encryptedData,
     });
     assert(Mtproto.is("dh_gen_ok", dhGenOk));
+    assertEquals(dhGenOk.nonce, nonce);
+    assertEquals(dhGenOk.server_nonce, serverNonce);
     LcreateAuthKey.debug("got dh_gen_ok");
 
     const serverNonceSlice = serverNonce_.subarray(0, 8);
@@ -193,6 +205,10 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const authKey_ = modExp(gA, b, dhPrime);
     const authKey = intToBytes(authKey_, 256, { byteOrder: "big", isSigned: false });
 
+    const authKeyAuxHash = (await sha1(authKey)).subarray(0, 8);
+    const newNonceHash1 = (await sha1(concat([newNonce_, new Uint8Array([1]), authKeyAuxHash]))).subarray(4, 20);
+    assertEquals(dhGenOk.new_nonce_hash1, intFromBytes(newNonceHash1));
+
     LcreateAuthKey.debug("auth key created");
 
     return [authKey, intFromBytes(salt)];
-- 
2.43.0


From 08fd862e7c76e84cbe82fae9149a929c0613d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 10/26] fix: do not take a longer number for the known safe
 prime

---
 client/0_password.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_password.ts b/client/0_password.ts
index f5eddbc..33329dd 100644
--- a/client/0_password.ts
+++ b/client/0_password.ts
@@ -48,7 +48,7 @@ export function isSafePrime(primeBytes: Uint8Array, g: number) {
       0x6F, 0x4F, 0xAD, 0xF0, 0x34, 0xB1, 0x04, 0x03, 0x11, 0x9C, 0xD8, 0xE3,
       0xB9, 0x2F, 0xCC, 0x5B,
   ]);
-  if (goodPrime.every((v, i) => v === primeBytes[i])) {
+  if (primeBytes.byteLength === goodPrime.byteLength && goodPrime.every((v, i) => v === primeBytes[i])) {
     if ([3, 4, 5, 7].includes(g)) {
       return true;
     }
-- 
2.43.0


From 0f627a7d47619c356d027cfbb23f9a808dfa160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 11/26] fix: refuse a password check with an unsafe server
 value

---
 client/0_password.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/0_password.ts b/client/0_password.ts
index 33329dd..95b5fb5 100644
--- a/client/0_password.ts
+++ b/client/0_password.ts
@@ -136,6 +136,9 @@ export async function checkPassword(password_: string, ap: Api.account_Password)
 
   // g_b := srp_B
   const gB = intFromBytes(srpB, { byteOrder: "big", isSigned: false });
+  if (!isGoodModExpFirst(gB, p)) {
+    throw new TypeError("Received unsafe srpB.");
+  }
 
   // k := H(p | g)
   const k = intFromBytes(await h(concat([pad(p), pad(g)])), { byteOrder: "big", isSigned: false });
-- 
2.43.0


From e050724dfc2373f408fe549a3d6b8c395e9c8043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 12/26] fix: do not accept 5, which generates no prime-order
 subgroup for the known safe prime

---
 client/0_password.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_password.ts b/client/0_password.ts
index 95b5fb5..9c63a1f 100644
--- a/client/0_password.ts
+++ b/client/0_password.ts
@@ -49,7 +49,7 @@ export function isSafePrime(primeBytes: Uint8Array, g: number) {
       0xB9, 0x2F, 0xCC, 0x5B,
   ]);
   if (primeBytes.byteLength === goodPrime.byteLength && goodPrime.every((v, i) => v === primeBytes[i])) {
-    if ([3, 4, 5, 7].includes(g)) {
+    if ([3, 4, 7].includes(g)) {
       return true;
     }
   }
-- 
2.43.0


From 1affee4f1e6b0b54c6b639595e5b5843bf204a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 13/26] fix: ignore answers to a re-keying of a secret chat
 that was never started

---
 client/3_secret_chat_manager.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 351a9ca..5bb443c 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1083,7 +1083,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
   async #processDecryptedMessageActionAcceptKey(chatId: number, action_: SecretChats.decryptedMessageActionAcceptKey) {
     const state = this.#getSecretChatState(chatId);
-    if (state.rekeyId !== action_.exchange_id || !Api.is("encryptedChat", state.encryptedChat)) {
+    if (state.rekeyId === 0n || state.rekeyId !== action_.exchange_id || !Api.is("encryptedChat", state.encryptedChat)) {
       return;
     }
 
@@ -1182,7 +1182,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
   async #processDecryptedMessageActionCommitKey(chatId: number, action: SecretChats.decryptedMessageActionCommitKey) {
     const state = this.#getSecretChatState(chatId);
-    if (state.toCommitId !== action.exchange_id) {
+    if (state.toCommitId === 0n || state.toCommitId !== action.exchange_id) {
       return;
     }
     if (state.toCommitAuthKeyId !== action.key_fingerprint || !Api.is("encryptedChat", state.encryptedChat)) {
-- 
2.43.0


From 15bc22ef23d39056bf7da74d847e006f1c2eca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 14/26] fix: encrypt a queued secret chat message with the key
 in use when its turn comes

---
 client/3_secret_chat_manager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 5bb443c..6813eec 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -790,6 +790,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
     const decryptedMessageLayer: SecretChats.decryptedMessageLayer = { _: "decryptedMessageLayer", in_seq_no, layer: 144, message, out_seq_no, random_bytes: crypto.getRandomValues(new Uint8Array(15)) };
 
+    // The key may have been replaced, and the previous one erased, while waiting for the messages before this one.
+    ({ authKey, authKeyId_: authKeyId } = this.#getSecretChatState(encryptedChat.id));
     const data = await this.#encryptMessage(isCreator, authKeyId, authKey, decryptedMessageLayer);
 
     const isSilent = !!(SecretChats.is("decryptedMessage", message) && message.silent);
-- 
2.43.0


From 37ca581fd806d0d90dfb80cfe63e864516a63e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 15/26] fix: store the number of a secret chat message before
 sending it

---
 client/3_secret_chat_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 6813eec..6c69935 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -798,6 +798,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const key = (out_seq_no - (isCreator ? 1 : 0)) / 2;
     const state = this.#getSecretChatState(encryptedChat.id);
     state.outgoingMessages.set(key, { data, file, isService, isSilent });
+    await state.commit(this.#c.messageStorage.storage);
     if (file) {
       const result = await this.#c.invoke({
         _: "messages.sendEncryptedFile",
-- 
2.43.0


From b4e1b153f735b408d27905d0dbed403895b6294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 16/26] fix: do not open a secret chat that has no key

---
 client/3_secret_chat_manager.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 6c69935..12b24c9 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1343,6 +1343,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
           state.authKeyUseCount = 0;
           state.isAuthKeyUsed = false;
           state.pendingExponent = 0n;
+        } else if (state.authKey.byteLength === 0) {
+          this.#L.debug("ignoring secret chat", update.chat.id, "because no key exchange was made for it");
+          return null;
         }
       }
 
-- 
2.43.0


From dc7d94583dc10416e1c70e653eb6b31923f15b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 17/26] fix: do not apply an update twice when it arrives while
 a gap is being recovered

---
 client/2_update_manager.ts | 97 ++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 40 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 73f6aae..f9db75e 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -377,6 +377,9 @@ export class UpdateManager {
     }
   }
 
+  // Held from comparing an update with the recorded state until it is recorded, because gap recoveries apply updates alongside the queues.
+  #applyUpdateMutex = new Mutex();
+
   #channelUpdateQueues = new Map<bigint, Queue>();
 
   async #processChannelPtsUpdateInner(update: ChannelPtsUpdate, checkGap: boolean) {
@@ -391,25 +394,31 @@ export class UpdateManager {
       await this.#recoverChannelUpdateGap(channelId, "updateChannelTooLong");
       return;
     }
-    if (update.pts !== 0) {
-      const ptsCount = update.pts_count;
-      if (checkGap) {
-        await this.#checkChannelGap(channelId, update.pts, ptsCount);
-      }
-      let currentPts: number | null = await this.#getChannelPtsWithDropPendingUpdatesCheck(channelId);
-      currentPts ??= update.pts - ptsCount;
-      if (currentPts + ptsCount > update.pts) {
-        return;
-      }
+    if (update.pts !== 0 && checkGap) {
+      await this.#checkChannelGap(channelId, update.pts, update.pts_count);
     }
 
-    if (this.#c.guaranteeUpdateDelivery) {
-      await this.#c.storage.setUpdate(channelId, update);
-    }
-    if (update.pts !== 0) {
-      this.#c.storage.channelPts.set([channelId], update.pts);
+    const unlock = await this.#applyUpdateMutex.lock();
+    try {
+      if (update.pts !== 0) {
+        const ptsCount = update.pts_count;
+        let currentPts: number | null = await this.#getChannelPtsWithDropPendingUpdatesCheck(channelId);
+        currentPts ??= update.pts - ptsCount;
+        if (currentPts + ptsCount > update.pts) {
+          return;
+        }
+      }
+
+      if (this.#c.guaranteeUpdateDelivery) {
+        await this.#c.storage.setUpdate(channelId, update);
+      }
+      if (update.pts !== 0) {
+        this.#c.storage.channelPts.set([channelId], update.pts);
+      }
+      this.#queueUpdate(update, channelId, true);
+    } finally {
+      unlock();
     }
-    this.#queueUpdate(update, channelId, true);
   }
 
   #queueUpdate(update: Api.Update, boxId: bigint, pts: boolean) {
@@ -442,18 +451,23 @@ export class UpdateManager {
       }
     }
 
-    const localState = await this.#getLocalState();
-    if (update.pts !== 0 && localState.pts + update.pts_count > update.pts) {
-      return;
-    }
+    const unlock = await this.#applyUpdateMutex.lock();
+    try {
+      const localState = await this.#getLocalState();
+      if (update.pts !== 0 && localState.pts + update.pts_count > update.pts) {
+        return;
+      }
 
-    if (this.#c.guaranteeUpdateDelivery) {
-      await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);
-    }
-    if (update.pts !== 0) {
-      await this.#setUpdatePts(update.pts);
+      if (this.#c.guaranteeUpdateDelivery) {
+        await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);
+      }
+      if (update.pts !== 0) {
+        await this.#setUpdatePts(update.pts);
+      }
+      this.#queueUpdate(update, UpdateManager.MAIN_BOX_ID, true);
+    } finally {
+      unlock();
     }
-    this.#queueUpdate(update, UpdateManager.MAIN_BOX_ID, true);
   }
 
   #ptsUpdateQueue = new Queue("ptsUpdate");
@@ -464,24 +478,27 @@ export class UpdateManager {
   }
 
   async #processQtsUpdateInner(update: QtsUpdate, checkGap: boolean) {
-    let localState = await this.#getLocalState();
-    if (update.qts !== 0) {
-      if (checkGap) {
-        await this.#checkGapQts(update.qts);
-        localState = await this.#getLocalState();
-      }
-      if (localState.qts + UpdateManager.QTS_COUNT > update.qts) {
+    if (update.qts !== 0 && checkGap) {
+      await this.#checkGapQts(update.qts);
+    }
+
+    const unlock = await this.#applyUpdateMutex.lock();
+    try {
+      const localState = await this.#getLocalState();
+      if (update.qts !== 0 && localState.qts + UpdateManager.QTS_COUNT > update.qts) {
         return;
       }
-    }
 
-    if (this.#c.guaranteeUpdateDelivery) {
-      await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);
-    }
-    if (update.qts !== 0) {
-      await this.#setUpdateQts(update.qts);
+      if (this.#c.guaranteeUpdateDelivery) {
+        await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);
+      }
+      if (update.qts !== 0) {
+        await this.#setUpdateQts(update.qts);
+      }
+      this.#queueUpdate(update, 0n, true);
+    } finally {
+      unlock();
     }
-    this.#queueUpdate(update, 0n, true);
   }
 
   #qtsUpdateQueue = new Queue("qtsUpdate");
-- 
2.43.0


From fb1d32a21949eb8852271623cb1a7cb137fe16f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 18/26] fix: read stored updates and messages in serialized
 form

getFirstUpdate() and getHistory() pass the values they got from the storage
to getTlObject(), which took a serialized value ([name, bytes]) for a key, so
that with any storage that cannot store objects, updates stored for guaranteed
delivery were read back as null and then removed.
---
 client/0_storage_operations.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 556ca19..6436ee5 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -261,8 +261,10 @@ export class StorageOperations {
   }
 
   async getTlObject(keyOrBuffer: Api.AnyType | Uint8Array | readonly StorageKeyPart[]): Promise<Api.DeserializedType | null> {
+    // a stored value can also be in its serialized form, unlike keys, which never contain bytes
+    const isSerialized = Array.isArray(keyOrBuffer) && keyOrBuffer[1] instanceof Uint8Array;
     // @ts-ignore: TBD
-    const buffer = (keyOrBuffer instanceof Uint8Array || Api.isValidObject(keyOrBuffer)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
+    const buffer = (keyOrBuffer instanceof Uint8Array || isSerialized || Api.isValidObject(keyOrBuffer)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
     if (buffer !== null) {
       if (buffer instanceof Uint8Array) {
         return Api.deserializeType(X, rleDecode(buffer));
-- 
2.43.0


From 5fd746dd3d2a98df31c1749572bf43aa66c147c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 19/26] fix: store the messages of a too long channel
 difference before its pts

They were only queued when the new pts was recorded, so that with guaranteed
update delivery they were lost when the process ended in between.
---
 client/2_update_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index f9db75e..c89c53a 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -878,7 +878,7 @@ export class UpdateManager {
         this.processChats(difference.chats, difference);
         await this.processUsers(difference.users, difference);
         for (const message of difference.messages) {
-          await this.#processUpdates({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
+          await this.#processChannelPtsUpdateInner({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
         }
         const pts_ = Api.as("dialog", difference.dialog).pts;
         if (pts_ !== undefined) {
-- 
2.43.0


From f854138e9a1f737c812428d56943f05208599011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 20/26] fix: start a new connection without the previous one's
 bytes and reader

---
 connection/1_connection_socks5.node.ts | 2 ++
 connection/1_connection_tcp.node.ts    | 2 ++
 connection/1_connection_web_socket.ts  | 1 +
 3 files changed, 5 insertions(+)

diff --git a/connection/1_connection_socks5.node.ts b/connection/1_connection_socks5.node.ts
index ad58be9..e2598f2 100644
--- a/connection/1_connection_socks5.node.ts
+++ b/connection/1_connection_socks5.node.ts
@@ -126,6 +126,8 @@ export class ConnectionSocks5 implements Connection {
     }
 
     this.#isReady = false;
+    this.#rejectRead();
+    this.#buffer.clear();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
diff --git a/connection/1_connection_tcp.node.ts b/connection/1_connection_tcp.node.ts
index 40dd876..23f9c1a 100644
--- a/connection/1_connection_tcp.node.ts
+++ b/connection/1_connection_tcp.node.ts
@@ -58,6 +58,8 @@ export class ConnectionTCP implements Connection {
       return;
     }
 
+    this.#rejectRead();
+    this.#buffer.clear();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
diff --git a/connection/1_connection_web_socket.ts b/connection/1_connection_web_socket.ts
index 9c7af56..ae58e97 100644
--- a/connection/1_connection_web_socket.ts
+++ b/connection/1_connection_web_socket.ts
@@ -41,6 +41,7 @@ export class ConnectionWebSocket implements Connection {
 
   #initWs() {
     return new Promise<void>((resolve, reject) => {
+      this.#rejectRead();
       this.#buffer.clear();
       const webSocket = new WebSocket(this.#url, "binary");
       webSocket.binaryType = "arraybuffer";
-- 
2.43.0


From 05a41ae371d1ad3a4938fb1f9b2240034e319fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 21/26] fix: fail a TLS read or write that waited while the
 connection was closed

---
 connection/1_connection_tls.node.ts | 2 ++
 connection/1_connection_tls.ts      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/connection/1_connection_tls.node.ts b/connection/1_connection_tls.node.ts
index 4d2062b..844f947 100644
--- a/connection/1_connection_tls.node.ts
+++ b/connection/1_connection_tls.node.ts
@@ -234,6 +234,7 @@ export class ConnectionTLS implements Connection {
 
   async #read(p: Uint8Array) {
     if (this.#buffer.length < p.byteLength) {
+      this.#assertConnected();
       await new Promise<void>((resolve, reject) => this.#nextResolve = [p.byteLength, { resolve, reject }]);
     }
     this.#buffer.read(p);
@@ -268,6 +269,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#wMutex.lock();
     try {
+      this.#assertConnected();
       let offset = 0;
       while (true) {
         const packet = p.subarray(offset, offset + MAX_PACKET_LENGTH - HEADER_LENGTH);
diff --git a/connection/1_connection_tls.ts b/connection/1_connection_tls.ts
index fd66714..60cac5d 100644
--- a/connection/1_connection_tls.ts
+++ b/connection/1_connection_tls.ts
@@ -205,6 +205,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#rMutex.lock();
     try {
+      this.#assertConnected();
       while (this.#buffer.length < p.byteLength) {
         await this.#readPacket();
       }
@@ -218,6 +219,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#wMutex.lock();
     try {
+      this.#assertConnected();
       let offset = 0;
       while (true) {
         const packet = p.subarray(offset, offset + MAX_PACKET_LENGTH - HEADER_LENGTH);
-- 
2.43.0


From 1db0e61ec80cd4739f6a5bf58cb6404c9807c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 22/26] fix: do not send over a connection that has not been
 initialized yet

---
 session/1_session.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/session/1_session.ts b/session/1_session.ts
index 9381bac..9155c11 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -131,8 +131,9 @@ export abstract class Session {
     }
   }
 
+  #isInitialized = false;
   get isConnected(): boolean {
-    return this.transport.connection.isConnected;
+    return this.#isInitialized && this.transport.connection.isConnected;
   }
 
   #connectMutex = new Mutex();
@@ -143,9 +144,11 @@ export abstract class Session {
         this.#resolveConnectionStateChange();
         return;
       }
+      this.#isInitialized = false;
       await this.transport.connection.open();
       try {
         await this.transport.transport.initialize();
+        this.#isInitialized = true;
       } catch (err) {
         if (this.transport.connection.isConnected) {
           try {
-- 
2.43.0


From 7b61fc773f1b91c9663cb28ca28ca2c568ca6440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 23/26] fix: keep a leading byte order mark when decoding text

---
 utilities/0_text.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/0_text.ts b/utilities/0_text.ts
index 5d6c2ca..d00305e 100644
--- a/utilities/0_text.ts
+++ b/utilities/0_text.ts
@@ -19,7 +19,7 @@
  */
 
 const encoder = new TextEncoder();
-const decoder = new TextDecoder();
+const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
 
 export function encodeText(decoded: string) {
   return encoder.encode(decoded);
-- 
2.43.0


From c8e07c23af07d655bbef01a5e22bf3e2590b1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 24/26] fix: keep buffered values readable until they are
 stored

A value set on a StorageMap could be read as what was stored before it when the cache dropped it before it was written, and a value set while a StorageMap or StorageValue was reading the storage was replaced by what was read.
---
 client/0_storage_operations.ts | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 6436ee5..0ae99a1 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -725,6 +725,7 @@ class StorageMap<K extends StorageKeyPart[], V> {
   }
 
   #pendingUpdates = new Map<string, V>();
+  #updatesBeingCommitted = new Map<string, V>();
   #cache = new LruCache<string, V | null>(20_000);
   set(key: K, value: V) {
     const key_ = toString(key);
@@ -756,12 +757,22 @@ class StorageMap<K extends StorageKeyPart[], V> {
     await awaitablePooledMap(10, await this.#storage.getMany({ prefix: [this.#path] }), async ([key]) => await this.#storage.set(key, null));
   }
 
+  // the cache might have dropped a value that is not in the storage yet
+  #getBuffered(key_: string): V | null | undefined {
+    const value = this.#cache.get(key_);
+    return value !== undefined ? value : this.#pendingUpdates.get(key_) ?? this.#updatesBeingCommitted.get(key_);
+  }
+
   async get(key: K): Promise<V | null> {
     const key_ = toString(key);
-    let value = this.#cache.get(key_);
+    let value = this.#getBuffered(key_);
     if (value === undefined) {
-      value = await this.#storage.get<V>([this.#path, ...key]);
-      this.#cache.set(key_, value);
+      const stored = await this.#storage.get<V>([this.#path, ...key]);
+      value = this.#getBuffered(key_); // it might have been set in the meantime
+      if (value === undefined) {
+        value = stored;
+        this.#cache.set(key_, value);
+      }
     }
     return value;
   }
@@ -772,6 +783,7 @@ class StorageMap<K extends StorageKeyPart[], V> {
     }
     const pendingUpdates = this.#pendingUpdates;
     this.#pendingUpdates = new Map();
+    this.#updatesBeingCommitted = pendingUpdates;
     try {
       await awaitablePooledMap(2, pendingUpdates, async ([key, value]) => await this.#storage.set([this.#path, ...fromString(key) as StorageKeyPart[]], value));
     } catch (err) {
@@ -781,6 +793,8 @@ class StorageMap<K extends StorageKeyPart[], V> {
         }
       }
       throw err;
+    } finally {
+      this.#updatesBeingCommitted = new Map();
     }
   }
 }
@@ -821,9 +835,12 @@ class StorageValue<T> {
 
   async get(): Promise<T | null> {
     if (this.#value === undefined) {
-      this.#value = await this.#storage.get(this.#key);
+      const value = await this.#storage.get<T>(this.#key);
+      if (this.#value === undefined) { // it might have been set in the meantime
+        this.#value = value;
+      }
     }
-    return this.#value;
+    return this.#value!;
   }
 
   async commit() {
-- 
2.43.0


From 447adffd8bd35a978f6ad4a506502abe81ff7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 25/26] fix: refuse file IDs with an unknown photo source

deserializeFileId returned a location without a source for them.
---
 types/_file_id.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types/_file_id.ts b/types/_file_id.ts
index 4960bfd..d3f5e5c 100644
--- a/types/_file_id.ts
+++ b/types/_file_id.ts
@@ -137,6 +137,8 @@ function deserializePhotoSource(reader: TLReader): PhotoSource {
       const stickerSetAccessHash = reader.readInt64();
       return { type, stickerSetId, stickerSetAccessHash, version: reader.readInt32() };
     }
+    default:
+      throw new InputError("Unsupported file ID format.");
   }
 }
 function serializePhotoSource(photoSource: PhotoSource, writer: TLWriter) {
-- 
2.43.0


From f23f071fcf8aef2b15075209b00950eec1e112ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 26/26] fix: do not connect after being told to disconnect

---
 session/1_session.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session/1_session.ts b/session/1_session.ts
index 9155c11..8b90412 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -19,6 +19,7 @@
  */
 
 import { delay, SECOND } from "../0_deps.ts";
+import { ConnectionError } from "../0_errors.ts";
 import { drop, getLogger, type Logger, Mutex } from "../1_utilities.ts";
 import type { Connection, ConnectionCallback } from "../2_connection.ts";
 import { type DC, type TransportProvider, transportProviderTcp, transportProviderWebSocket } from "../3_transport.ts";
@@ -137,7 +138,9 @@ export abstract class Session {
   }
 
   #connectMutex = new Mutex();
+  #disconnectCount = 0;
   async connect() {
+    const disconnectCount = this.#disconnectCount;
     const unlock = await this.#connectMutex.lock();
     try {
       if (this.isConnected) {
@@ -148,6 +151,9 @@ export abstract class Session {
       await this.transport.connection.open();
       try {
         await this.transport.transport.initialize();
+        if (disconnectCount !== this.#disconnectCount) {
+          throw new ConnectionError("The connection was disconnected.");
+        }
         this.#isInitialized = true;
       } catch (err) {
         if (this.transport.connection.isConnected) {
@@ -186,6 +192,7 @@ export abstract class Session {
 
   disconnect() {
     this.#isDisconnected = true;
+    ++this.#disconnectCount;
     if (this.transport.connection.isConnected) {
       drop(this.transport.connection.close());
     }
-- 
2.43.0

