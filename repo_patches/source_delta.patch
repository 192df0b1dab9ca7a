From 43309857ebeca9e6d45af2d8a45c462575a1eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:14 +0000
Subject: [PATCH 01/37] fix: keep FIFO order of the back page when a queue is
 loaded from disk

The last page was read in descending order and appended as is, so after a
restart its messages were popped newest first.
---
 ekosis/queues/paginated_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 0381fa3..d0b2b85 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -182,7 +182,7 @@ class PaginatedQueue(Generic[_QueuedType]):
             order_by(desc(QueueRecord.record_id)).\
             limit(self.page_size).all()
 
-        for record in records:
+        for record in reversed(records):
             self.back_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
         ids_to_delete: List[int] = [int(x.record_id) for x in records]
         self.__delete_record_ids(ids_to_delete)
-- 
2.43.0


From 8f30ec6c4f4291a0313c9b6abd43b905995a70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:14 +0000
Subject: [PATCH 02/37] fix: list the first queued span keys across front page,
 database and back page

Only the front page was consulted (see the TODO this removes), so entries
that had spilled over were missing from the listing, and a queue whose front
page had been emptied was listed as empty.
---
 ekosis/queues/paginated_queue.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index d0b2b85..b50bffb 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -315,13 +315,22 @@ class PaginatedQueue(Generic[_QueuedType]):
     def is_empty(self) -> int:
         return self.size() == 0
 
-    # TODO: There is a bug with this:
-    #   - When there are fewer then the requested amount of items in the queue.
-    #   - It is currently possible for entries to be spread between front page, database
-    #   - and back page. And this only reports on what is in the front page.
+    # --------------------------------------------------------------------------------
+    def __get_first_x_database_span_keys(self, how_many: int) -> List[str]:
+        records = self.session.\
+            query(QueueRecord.span_key).\
+            order_by(asc(QueueRecord.record_id)).\
+            limit(how_many).all()
+        return [str(SpanKey.from_bytes(record.span_key)) for record in records]
+
     # --------------------------------------------------------------------------------
     async def get_first_x_span_keys(self, how_many: int = 1) -> List[str]:
-        return self.front_page.get_first_x_span_keys(how_many)
+        retval = self.front_page.get_first_x_span_keys(how_many)
+        if len(retval) < how_many:
+            retval += self.__get_first_x_database_span_keys(how_many - len(retval))
+        if len(retval) < how_many and self.back_page is not self.front_page:
+            retval += self.back_page.get_first_x_span_keys(how_many - len(retval))
+        return retval
 
     # --------------------------------------------------------------------------------
     async def clear(self):
-- 
2.43.0


From 3b088606a90dbacab0de7fd2864e67ba6ba4d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:31 +0000
Subject: [PATCH 03/37] fix: a queue with page_size 0 loses sight of everything
 it wrote to disk

BufferedRequestHandlerBase defaults to page_size 0. With it every second push
is written to the database, and loading a page of 0 entries never brings any
of them back: pop() returned None on a queue that is not empty.
---
 ekosis/queues/paginated_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index b50bffb..82358ba 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -125,7 +125,7 @@ class PaginatedQueue(Generic[_QueuedType]):
         self.connection_string: str               = f"sqlite:///{file_path}"
         self.database_engine  : sqlalchemy.Engine = create_engine(self.connection_string)
         self.queued_type      : Type[_QueuedType] = queued_type
-        self.page_size        : int               = page_size
+        self.page_size        : int               = max(1, page_size) # Pages of no entries can not be loaded.
         self.front_page       : QueuePage         = QueuePage(queued_type)
         self.back_page        : QueuePage         = self.front_page
 
-- 
2.43.0


From b93f4861f81e880ae5c0492d01b98ec24221945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:31 +0000
Subject: [PATCH 04/37] fix: do not report a popped or reprocessed message as
 missing when its data is empty

Requests whose DTO has no fields are stored as {}, which is falsy: popping such
a message from the error queue deleted it and answered that it does not exist.
---
 ekosis/queues/pending_queue.py           | 6 +++---
 ekosis/requests/buffered_handler_base.py | 6 +++---
 ekosis/sending/buffered_sender_base.py   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ekosis/queues/pending_queue.py b/ekosis/queues/pending_queue.py
index d8b7ca6..60fc836 100644
--- a/ekosis/queues/pending_queue.py
+++ b/ekosis/queues/pending_queue.py
@@ -64,7 +64,7 @@ class PendingQueue:
 
     async def move_one_error_to_pending(self, span_key: SpanKey):
         popped_error_entry = await self.error_q.pop_span_key(span_key)
-        if popped_error_entry:
+        if popped_error_entry is not None:
             await self.push_pending(span_key, popped_error_entry.data, 0, popped_error_entry.metadata)
             return popped_error_entry.data
         return None
@@ -79,7 +79,7 @@ class PendingQueue:
     @staticmethod
     async def _pop_using_span_key(queue: PaginatedQueue, span_key: SpanKey):
         queued_request = await queue.pop_span_key(span_key)
-        if not queued_request:
+        if queued_request is None:
             return None
         return queued_request.data
 
@@ -93,7 +93,7 @@ class PendingQueue:
     @staticmethod
     async def _inspect_using_span_key(queue: PaginatedQueue, span_key: SpanKey):
         queued_request = await queue.inspect_span_key(span_key)
-        if not queued_request:
+        if queued_request is None:
             return None
         return queued_request.data
 
diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 6ec200f..9056f75 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -91,14 +91,14 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
@@ -115,7 +115,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
         self._processing_paused = False
         self.__check_process_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index c6e5c84..67c7e8a 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -142,14 +142,14 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
@@ -166,7 +166,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
         self._sending_paused = False
         self.__check_process_send_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
-- 
2.43.0


From f2379e08cf6e0dac894ff063893687acb3ef82a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 05/37] fix: keep buffered requests whose processing raises or
 is interrupted

The request was popped before it was processed. When the handler or a
middleware raised, it was lost and the worker died; when the application was
stopped while the handler was at work, it was lost too. A handler that raises
now counts as a failed attempt, an interrupted request goes back to pending,
and stored data its DTO no longer accepts goes to the error queue.
---
 ekosis/requests/buffered_handler_base.py | 35 ++++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 9056f75..066c4dc 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -175,25 +175,50 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         while not self.on_shutdown_future.done():
             await asyncio.sleep(1)
 
+    # --------------------------------------------------------------------------------
+    async def __run_handler(self, span_key: SpanKey, request_data: _T, metadata: dict, retries: int) -> bool:
+        try:
+            await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
+            return await self.process_buffered_request(span_key = span_key, dto = request_data)
+        except Exception as e: # A handler that raises did not process the request.
+            self.log.error(f"Buffered handler [{self._route_key}] failed on [{span_key}]: {type(e)}: {e}")
+            return False
+
+    # --------------------------------------------------------------------------------
+    async def __run_after_process(self, span_key: SpanKey, request_data: _T, metadata: dict, success: bool):
+        try:
+            await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
+        except Exception as e: # What the handler did stands, whatever the middleware does.
+            self.log.error(f"Buffered middleware failed after processing [{span_key}]: {type(e)}: {e}")
+
     # --------------------------------------------------------------------------------
     async def __do_queue_processing(self):
         while not self._processing_paused and await self.queue.has_pending():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self.request_dto_type(**buffered_item.data)
             retries       = buffered_item.retries
             metadata      = buffered_item.metadata
-            token         = _set_current_span_key(span_key)
             try:
-                await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
-                success = await self.process_buffered_request(span_key = span_key, dto = request_data)
-                await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
+                request_data = self.request_dto_type(**buffered_item.data)
+            except Exception as e: # Not something the handler can be given, but not ours to throw away.
+                await self.queue.push_error(span_key, buffered_item.data, str(e), metadata)
+                continue
+
+            success = False
+            token   = _set_current_span_key(span_key)
+            try:
+                success = await self.__run_handler(span_key, request_data, metadata, retries)
+                await self.__run_after_process(span_key, request_data, metadata, success)
                 if not success:
                     retries += 1
                     if retries >= self.max_retries:
                         await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
                     else:
                         await self.queue.push_pending(span_key, request_data, retries, metadata)
+            except asyncio.CancelledError: # The application is going down: keep what has not been processed.
+                if not success:
+                    await self.queue.push_pending(span_key, request_data, retries, metadata)
+                raise
             finally:
                 _reset_current_span_key(token)
 
-- 
2.43.0


From af79a6cf732280690333f7010be3d5b921b0a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 06/37] fix: put a buffered request in its queue before
 acknowledging it

The push ran as a separate task, after the response had been built and the
worker had been checked: a request could be acknowledged and then lost when
the push failed or the application stopped, and a worker that found the queue
empty before the push ran left the request unprocessed.
---
 ekosis/requests/buffered_handler_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 066c4dc..7d80217 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -9,7 +9,6 @@ from .handler_base import HandlerBase
 from .request_context import _set_current_span_key, _reset_current_span_key
 from .status import Status
 
-from ..util.fire_and_forget_tasks import fire_and_forget_task
 from ..data_transfer_objects import BufferedEndpointResponseDTO, SpanKey
 from ..queues.pending_queue import PendingQueue
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -249,7 +248,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         if self._receiving_paused:
             raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         metadata = await BufferedMiddlewareManager().collect_push_metadata(span_key, dto)
-        fire_and_forget_task(self.queue.push_pending(span_key, dto, 0, metadata))
+        await self.queue.push_pending(span_key, dto, 0, metadata)
         response = BufferedEndpointResponseDTO(span_key = span_key)
         self.__check_process_queue()
         return response
-- 
2.43.0


From 5c4f78a9814528c79d9a765d1682ee6618038576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 07/37] fix: reprocessing error queue entries does not resume a
 paused buffer

Moving entries from error to pending ended with processing (or sending)
unpaused, even when an operator had paused it.
---
 ekosis/requests/buffered_handler_base.py | 6 +-----
 ekosis/sending/buffered_sender_base.py   | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 7d80217..79c48f4 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -103,16 +103,12 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
-        self._processing_paused = True
         await self.queue.move_all_error_to_pending()
-        self._processing_paused = False
         self.__check_process_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _T|None:
-        self._processing_paused = True
-        buffered_request        = await self.queue.move_one_error_to_pending(span_key)
-        self._processing_paused = False
+        buffered_request = await self.queue.move_one_error_to_pending(span_key)
         self.__check_process_queue()
         if buffered_request is None:
             return None
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 67c7e8a..824e421 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -155,16 +155,12 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
-        self._sending_paused = True
         await self.queue.move_all_error_to_pending()
-        self._sending_paused = False
         self.__check_process_send_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _RequestDTOType|None:
-        self._sending_paused = True
-        buffered_request     = await self.queue.move_one_error_to_pending(span_key)
-        self._sending_paused = False
+        buffered_request = await self.queue.move_one_error_to_pending(span_key)
         self.__check_process_send_queue()
         if buffered_request is None:
             return None
-- 
2.43.0


From cee1a3e9ae51de48abc073b05a184a9fe5837eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:41 +0000
Subject: [PATCH 08/37] fix: answer server-busy when receiving on a buffered
 endpoint is paused

The exception carries status 500, but was answered as 999 unhandled. Buffered
senders only retry on server-busy, so they dead-lettered their messages
instead of waiting for receiving to be resumed.
---
 ekosis/requests/buffered_handler_base.py | 5 +++--
 ekosis/servers/server_base.py            | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 79c48f4..1ccf460 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -19,8 +19,9 @@ _T = TypeVar("_T", bound=PydanticBaseModel)
 # --------------------------------------------------------------------------------
 class BufferedRequestHandlerExceptionBase(Exception):
     def __init__(self, status: int, message: str):
-        self.status: int = status
-        super().__init__(f"status: [{status}] message: [{message}]")
+        self.status : int = status
+        self.message: str = f"status: [{status}] message: [{message}]"
+        super().__init__(self.message)
 
 # --------------------------------------------------------------------------------
 class BufferedRequestHandlerReceivingPausedException(BufferedRequestHandlerExceptionBase):
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index bd69610..e9dd27a 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -6,6 +6,7 @@ from pydantic import ValidationError
 
 from ..data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
 from ..requests.request_router import RequestRouter, RoutingExceptionBase
+from ..requests.buffered_handler_base import BufferedRequestHandlerExceptionBase
 from ..requests.request_context import _set_current_span_key, _reset_current_span_key
 from ..requests.status import Status
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -63,7 +64,7 @@ class ServerBase:
                 status   = Status.PYDANTIC_VALIDATION_ERROR.value,
                 data     = str(e)
             )
-        except RoutingExceptionBase as e:
+        except (RoutingExceptionBase, BufferedRequestHandlerExceptionBase) as e:
             return ResponseDTO(
                 span_key = span_key,
                 status   = e.status,
-- 
2.43.0


From a45ac248e926612841428bd6220699112250979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:58 +0000
Subject: [PATCH 09/37] fix: keep buffered sends that are interrupted by a
 shutdown

The message was popped before it was sent, and a cancellation while it was
being sent (or waiting for its turn) lost it. Stored data the request DTO no
longer accepts goes to the error queue instead of killing the sender.
---
 ekosis/sending/buffered_sender_base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 824e421..533b699 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -88,8 +88,13 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         while not self._sending_paused and self.queue.pending_q.size():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self._request_dto_type(**buffered_item.data)
             retries       = buffered_item.retries
+            try:
+                request_data = self._request_dto_type(**buffered_item.data)
+            except Exception as e: # Not something that can be sent, but not ours to throw away.
+                await self.queue.push_error(span_key, buffered_item.data, str(e))
+                continue
+
             try:
                 if self.wait_period > 0:
                     await asyncio.sleep(self.wait_period)
@@ -100,6 +105,9 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
                     await self.queue.push_error(span_key, request_data, "Max retries reached.")
                 else:
                     await self.queue.push_pending(span_key, request_data, retries)
+            except asyncio.CancelledError: # The application is going down: keep what has not been sent.
+                await self.queue.push_pending(span_key, request_data, retries)
+                raise
             except Exception as e : # Move it to the error queue
                 await self.queue.push_error(span_key, request_data, str(e))
 
-- 
2.43.0


From f2d17121f82b51dbd3d0cfc0d8f6bf5f1805fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:17 +0000
Subject: [PATCH 10/37] fix: leave the event loop cleanly when an exit signal
 arrives

The signal handler raised an Exception from whatever code happened to run. An
'except Exception' (request routing, the buffered sender) swallowed it, so the
signal had no effect; queue code was interrupted half way; and a second signal
interrupted the writing of the queues. The exception is now raised between two
event loop callbacks, nothing but the application catches it, and a shutdown
that has begun is completed.
---
 ekosis/application_base.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 9ec61ce..ec01ab9 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -65,7 +65,7 @@ class InstanceAlreadyRunningException(ExceptionBase):
         super().__init__(f"Instance [{instance_id}] of [{application_name}] already running with process id [{process_id}]!")
 
 # --------------------------------------------------------------------------------
-class TerminationSignalException(Exception):
+class TerminationSignalException(KeyboardInterrupt): # Not an Exception: nothing but the application should catch it.
     pass
 
 # --------------------------------------------------------------------------------
@@ -88,22 +88,34 @@ class ApplicationBase(metaclass=SingletonType):
 
     # --------------------------------------------------------------------------------
     @staticmethod
-    def __handle_exit_signal(signum, frame):
+    def __raise_termination():
         raise TerminationSignalException("Exit signal received")
 
     # --------------------------------------------------------------------------------
-    def __setup_signal_handlers(self):
+    def __handle_exit_signal(self, signum, frame):
+        self.__set_signal_handlers(signal.SIG_IGN) # We are on our way out, further signals must not interrupt that.
+        try:
+            loop = asyncio.get_running_loop()
+        except RuntimeError:
+            self.__raise_termination()
+        else: # Leave from between two callbacks, rather than from the middle of whatever is running now.
+            loop.call_soon_threadsafe(self.__raise_termination)
+
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def __set_signal_handlers(handler):
         for x_signal in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
-            signal.signal(x_signal, self.__handle_exit_signal)
+            signal.signal(x_signal, handler)
 
     # --------------------------------------------------------------------------------
     def __enter__(self):
-        self.__setup_signal_handlers()
+        self.__set_signal_handlers(self.__handle_exit_signal)
         self.__running = True
         return self
 
     # --------------------------------------------------------------------------------
     def __exit__(self, exc_type, exc_val, exc_tb):
+        self.__set_signal_handlers(signal.SIG_IGN) # Whatever brought us here: the shutdown has to complete.
         if exc_type is not None:
             if not isinstance(exc_val, asyncio.CancelledError) \
                     and not isinstance(exc_val, TerminationSignalException):
@@ -116,6 +128,7 @@ class ApplicationBase(metaclass=SingletonType):
             self.logger.info(f"Shutdown: Application context ending.")
 
         self.__do_shutdown()
+        self.__set_signal_handlers(signal.SIG_DFL)
         return True
 
     # --------------------------------------------------------------------------------
-- 
2.43.0


From 9edbb9031b8707b94e917696e0e2877ea871c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:41 +0000
Subject: [PATCH 11/37] fix: raise ClientDeniedException for a client-denied
 response

The response data of an error is text, str has no json().
---
 ekosis/clients/client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 1c19a28..756db62 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -42,7 +42,7 @@ class ClientBase(ABC):
             return ProtocolParsingException(str(request.data))
 
         if request.status == Status.CLIENT_DENIED.value:
-            return ClientDeniedException(str(request.data.json()))
+            return ClientDeniedException(str(request.data))
 
         if request.status == Status.PYDANTIC_VALIDATION_ERROR.value:
             return PydanticValidationException(str(request.data))
-- 
2.43.0


From 732704697e7a10037ca566fe7c13c8a2bf18a245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:41 +0000
Subject: [PATCH 12/37] fix: do not share retry state between concurrent sends
 on one client

A send that succeeded set a flag on the client that ended the retry loops of
the other sends in progress, which then returned nothing at all. The same
happened to every send of a client with max_retries 0, which now makes the
one attempt.
---
 ekosis/clients/client_base.py                   | 4 ----
 ekosis/clients/datagram_client_base.py          | 5 ++---
 ekosis/clients/persistent_stream_client_base.py | 6 ++----
 ekosis/clients/stream_client_base.py            | 6 ++----
 4 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 756db62..2d19b0e 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -27,8 +27,6 @@ class ClientBase(ABC):
     ):
         self.max_retries: int   = max_retries
         self.retry_delay: float = retry_delay
-        self.retry_count: int   = 0
-        self.success    : bool  = False
 
     # --------------------------------------------------------------------------------
     @abstractmethod
@@ -70,8 +68,6 @@ class ClientBase(ABC):
         span_key         : SpanKey                 = None,
     ) -> PydanticBaseModel:
         span_key_to_use  = span_key if span_key else SpanKey.generate()
-        self.success     = False
-        self.retry_count = 0
         request          = RequestDTO(span_key = span_key_to_use, route_key = route_key, data = data)
         request_str      = request.model_dump_json()
         response_str     = await self._send_message_retry_loop(f"{request_str}\n")
diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index ecc4e0b..f707866 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -72,10 +72,9 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
         retry_count = 0
-        while retry_count < self.max_retries:
+        while True:
             try:
-                response = await self._send_message(request)
-                return response
+                return await self._send_message(request)
             except (TimeoutError, asyncio.TimeoutError):
                 retry_count += 1
                 if retry_count >= self.max_retries:
diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index e5f0690..8d2caad 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -132,11 +132,9 @@ class PersistentStreamClientBase(ClientBase, ABC):
         await self.__check_heartbeat_task()
 
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while True:
             try:
-                response_str = await self._send_message(request)
-                self.success = True
-                return response_str
+                return await self._send_message(request)
             except (TimeoutError, asyncio.TimeoutError):
                 retry_count = await self.__do_retry_logic(retry_count)
             except (
diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index f75c95f..c51bbe8 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -47,11 +47,9 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while True:
             try:
-                response_str = await self._send_message(request)
-                self.success = True
-                return response_str
+                return await self._send_message(request)
             except (
                 TimeoutError,           # Timeouts mean the connection is fine
                 asyncio.TimeoutError,   # it's just taking too long. i.e. Retryable.
-- 
2.43.0


From 13ed7ebe79a9f539741b4b8bec9c2f28ec042f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:59 +0000
Subject: [PATCH 13/37] fix: never take a late response for the response to
 another request (persisted clients)

After a timeout the connection was kept, so the late response to the timed out
request was returned for the next one, and every response after it was off by
one. Heartbeats and requests could also read each other's response, a failed
heartbeat ended the heartbeat task, and a failing reconnect escaped from the
retry loop as a bare OSError.
---
 .../clients/persistent_stream_client_base.py  | 66 +++++++------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index 8d2caad..a26b845 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -34,8 +34,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         self.__heartbeat_time   : float                = heartbeat_period
         self.__connected        : bool                 = False
         self.__last_send        : float                = 0
-        self.__read_lock        : asyncio.Lock         = asyncio.Lock()
-        self.__write_lock       : asyncio.Lock         = asyncio.Lock()
+        self.__exchange_lock    : asyncio.Lock         = asyncio.Lock()
         self.__reader           : asyncio.StreamReader = None
         self.__writer           : asyncio.StreamWriter = None
         self.__heartbeat_task   : asyncio.Task         = None
@@ -57,34 +56,35 @@ class PersistentStreamClientBase(ClientBase, ABC):
             self.__connected = True
 
     # --------------------------------------------------------------------------------
-    async def __do_write(self, data: bytes):
-        async with self.__write_lock:
-            self.__writer.write(data)
+    def __drop_connection(self):
+        self.__connected = False
+        self.__writer.close()
 
+    # One exchange at a time. And a connection on which an exchange did not complete is not used again:
+    # the response might still arrive, and would be taken for the response to the next request.
     # --------------------------------------------------------------------------------
-    async def __do_read(self) -> bytes:
-        async with self.__read_lock:
-            return await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+    async def __exchange(self, data: bytes) -> bytes:
+        async with self.__exchange_lock:
+            await self.__check_connected()
+            try:
+                self.__writer.write(data)
+                response = await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+                if not response or response[-1] != self.__LF_byte:
+                    raise CommunicationsEmptyResponse()
+            except BaseException:
+                self.__drop_connection()
+                raise
+            self.__last_send = time.time()
+            return response
 
     # --------------------------------------------------------------------------------
     async def __do_heartbeat(self):
         try:
-            await self.__check_connected() # check if we did connect in the past
-        except ConnectionRefusedError as e:
-            return
-
-        await self.__do_write(self.__ENQ_request)
-
-        data = await self.__do_read()
-
-        if (
-            not data or
-            data[-1] != self.__LF_byte or
-            data[0]  != self.__ACK_byte
-        ):
-            self.__connected = False
-        else:
-            self.__last_send = time.time()
+            data = await self.__exchange(self.__ENQ_request)
+            if data[0] != self.__ACK_byte:
+                self.__drop_connection()
+        except (OSError, CommunicationsEmptyResponse) as e: # TimeoutError is an OSError. We try again later.
+            log.debug(f"Heartbeat failed: {type(e)}: {str(e)}")
 
     # --------------------------------------------------------------------------------
     async def __heartbeat_check(self):
@@ -102,21 +102,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
-        try:
-            await self.__check_connected()
-        except ConnectionRefusedError as e:
-            raise e
-
-        await self.__do_write(request.encode())
-
-        data = await self.__do_read()
-        if not data or data[-1] != self.__LF_byte:
-            self.__connected = False
-            raise CommunicationsEmptyResponse()
-
-        self.__last_send = time.time()
-        response_str = data.decode()
-        return response_str
+        return (await self.__exchange(request.encode())).decode()
 
     # --------------------------------------------------------------------------------
     async def __do_retry_logic(self, retry_count: int):
@@ -143,8 +129,6 @@ class PersistentStreamClientBase(ClientBase, ABC):
                 BrokenPipeError,        # So we have to re-connect.
                 CommunicationsEmptyResponse
             ):
-                self.__connected = False
-                await self.__check_connected()
                 retry_count = await self.__do_retry_logic(retry_count)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
-- 
2.43.0


From 029604d0f790aa4d342d52c15b4164bd8fd0627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 14/37] fix: never take a late response for the response to
 another request (UDP client)

After a timeout the socket was kept, and the late datagram was returned as the
response to the next request.
---
 ekosis/clients/datagram_client_base.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index f707866..933d914 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -23,9 +23,8 @@ class DatagramProtocolClient(asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     def datagram_received(self, data: bytes, address: tuple[str, int]) -> None:
-        if self.response:
+        if self.response and not self.response.done():
             self.response.set_result(data.decode())
-            self.response = None
 
     # --------------------------------------------------------------------------------
     async def send_message(self, message: str):
@@ -58,16 +57,21 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, message: str) -> str:
-        if not self.initialised:
-            self.loop            = asyncio.get_running_loop()
-            self.transport, self.protocol = await self.loop.create_datagram_endpoint(
-                lambda: DatagramProtocolClient(self.timeout),
-                remote_addr=(self.server_host, self.server_port)
-            )
-            self.initialised = True
-
         async with self.send_lock:
-            return await self.protocol.send_message(message)
+            if not self.initialised:
+                self.loop            = asyncio.get_running_loop()
+                self.transport, self.protocol = await self.loop.create_datagram_endpoint(
+                    lambda: DatagramProtocolClient(self.timeout),
+                    remote_addr=(self.server_host, self.server_port)
+                )
+                self.initialised = True
+
+            try:
+                return await self.protocol.send_message(message)
+            except BaseException: # A late response must not be taken for the response to the next message.
+                self.initialised = False
+                self.transport.close()
+                raise
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From 68878b5c1e2ef369627b58e8ba1c518efff22277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 15/37] fix: transient clients reject a truncated response, and
 do not send again after a complete one

A response cut short by the server was handed to the JSON parser, whose error
is not a communications exception; a connection reset after the complete
response made the client send the request again; and the connection was left
open on every failure.
---
 ekosis/clients/stream_client_base.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index c51bbe8..1a1b639 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -16,6 +16,8 @@ log = logging.getLogger()
 
 # --------------------------------------------------------------------------------
 class StreamClientBase(ClientBase, ABC):
+    __LF_byte: int = 10 # Decimal 10 = Ascii LF (line feed) character = '\n'
+
     def __init__(
         self,
         timeout    : float = 5,
@@ -33,16 +35,20 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
         reader, writer = await self.open_connection()
-        writer.write(request.encode())
+        try:
+            writer.write(request.encode())
 
-        data = await asyncio.wait_for(reader.readline(), self.__timeout)
-        if not data:
-            raise CommunicationsEmptyResponse()
+            data = await asyncio.wait_for(reader.readline(), self.__timeout)
+            if not data or data[-1] != self.__LF_byte:
+                raise CommunicationsEmptyResponse()
+        finally:
+            writer.close()
 
-        response_str = data.decode()
-        writer.close()
-        await writer.wait_closed()
-        return response_str
+        try:
+            await writer.wait_closed()
+        except OSError: # We have the response, how the connection ends does not matter.
+            pass
+        return data.decode()
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From ae13b3a6a6d82e44d40409717884e33e23a47c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 16/37] fix: answer requests that are not UTF-8, and requests
 whose response can not be serialised

Both killed the connection handler (or the UDP response task), so the client
got no response at all. The first is a protocol parsing error, the second is
answered as unhandled.
---
 ekosis/servers/json/udp.py           | 10 ++--------
 ekosis/servers/server_base.py        | 22 +++++++++++++++++-----
 ekosis/servers/stream_server_base.py |  7 ++-----
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index 9e894f5..bf9d704 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -36,8 +36,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
             if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
-                request_data: str = bytes_read.decode()
-                self.loop.create_task(self.do_response(request_data, addr))
+                self.loop.create_task(self.do_response(bytes_read, addr))
 
 # --------------------------------------------------------------------------------
 class UDPServer(ServerBase):
@@ -64,17 +63,12 @@ class UDPServer(ServerBase):
             self._running = False
             self._logger.info(f"Stopping UDP server for {self.host}:{self.port}.")
 
-    # --------------------------------------------------------------------------------
-    async def __process_received_data(self, received_data: str):
-        response_dict = await self._route_request(received_data)
-        return response_dict.model_dump_json()
-
     # --------------------------------------------------------------------------------
     async def __create_datagram_listener(self):
         self._logger.info(f"Serving UDP on [{self.host}:{self.port}]")
         self.__loop = asyncio.get_running_loop()
         self.__transport, protocol = await self.__loop.create_datagram_endpoint(
-            lambda: DatagramProtocolServer(self.__process_received_data),
+            lambda: DatagramProtocolServer(self._build_response),
             local_addr=(self.host, self.port)
         )
 
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index e9dd27a..05c2225 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -29,20 +29,32 @@ class ServerBase:
         return self._transport_type
 
     # --------------------------------------------------------------------------------
-    async def _route_request(self, request_text: str) -> ResponseDTO:
+    async def _build_response(self, request: bytes) -> str:
+        response = await self._route_request(request)
+        try:
+            return response.model_dump_json()
+        except Exception as e: # What we have can not be sent. The client still has to get a response.
+            return ResponseDTO(
+                span_key = response.span_key,
+                status   = Status.UNHANDLED.value,
+                data     = str(e)
+            ).model_dump_json()
+
+    # --------------------------------------------------------------------------------
+    async def _route_request(self, request: bytes) -> ResponseDTO:
         span_key: SpanKey = None
         try:
             start_time   = timeit.default_timer()
-            request_dict = json.loads(request_text.strip())
+            request_dict = json.loads(request.decode().strip())
             protocol_dto = RequestDTO(**request_dict)
             span_key     = protocol_dto.span_key
             token        = _set_current_span_key(span_key)
             try:
-                request      = {
+                route_kwargs = {
                     "span_key"    : span_key,
                     "protocol_dto": protocol_dto,
                 }
-                response     = await self._request_router.route_request(**request)
+                response     = await self._request_router.route_request(**route_kwargs)
                 end_time     = timeit.default_timer() - start_time
                 self._statistics_keeper.add_endpoint_stats(protocol_dto.route_key, end_time)
                 return ResponseDTO(
@@ -52,7 +64,7 @@ class ServerBase:
                 )
             finally:
                 _reset_current_span_key(token)
-        except json.decoder.JSONDecodeError as e:
+        except (json.decoder.JSONDecodeError, UnicodeDecodeError) as e:
             return ResponseDTO(
                 span_key = span_key,
                 status   = Status.PROTOCOL_PARSING_ERROR.value,
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index 16f2f96..51b0c61 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -35,11 +35,8 @@ class StreamServerBase(ServerBase):
                 if bytes_read[0] == self.__ENQ_byte: # The client is asking if we are still connected.
                     await self.__write_data(writer, self.__ACK_response)
                 else:
-                    response_dict = await self._route_request(bytes_read.decode())
-                    await self.__write_data(
-                        writer,
-                        (response_dict.model_dump_json() + '\n').encode()
-                    )
+                    response = await self._build_response(bytes_read)
+                    await self.__write_data(writer, (response + '\n').encode())
             except ConnectionResetError:
                 self._logger.info("Connection reset by peer")
                 break
-- 
2.43.0


From 3d7b511c4ad67980f0053c3cf389155f43c47e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 17/37] fix: reject span ids that are not sixteen hexadecimal
 digits

int() also accepts a sign, underscores and a 0x prefix. A negative span id was
accepted and acknowledged, and then could not be stored.
---
 ekosis/data_transfer_objects/span_id.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis/data_transfer_objects/span_id.py b/ekosis/data_transfer_objects/span_id.py
index dfe914b..dbf5910 100644
--- a/ekosis/data_transfer_objects/span_id.py
+++ b/ekosis/data_transfer_objects/span_id.py
@@ -1,4 +1,5 @@
 import os
+import string
 
 from pydantic_core import core_schema
 
@@ -20,7 +21,7 @@ class SpanId:
             int_ = int.from_bytes(bytes_, 'big')  # big endian
 
         if hex_ is not None:
-            if len(hex_) != 16:
+            if len(hex_) != 16 or not all(x in string.hexdigits for x in hex_):
                 raise ValueError('badly formed hexadecimal SpanId string')
             int_ = int(hex_, 16)
 
-- 
2.43.0


From 094dd47b8991bd8fac6bceedb3eb648b7e0f5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:33 +0000
Subject: [PATCH 18/37] fix: messages on streams are not limited to 64 KiB

The default limit of asyncio streams: a longer request killed its connection
without a response, and a longer response (the full statistics history of an
application with a few endpoints is one) could not be read by any client.
---
 ekosis/clients/json/persisted_tcp.py          | 3 ++-
 ekosis/clients/json/persisted_uds.py          | 3 ++-
 ekosis/clients/json/transient_tcp.py          | 3 ++-
 ekosis/clients/json/transient_uds.py          | 3 ++-
 ekosis/data_transfer_objects/json_protocol.py | 3 +++
 ekosis/servers/json/tcp.py                    | 3 ++-
 ekosis/servers/json/uds.py                    | 3 ++-
 7 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ekosis/clients/json/persisted_tcp.py b/ekosis/clients/json/persisted_tcp.py
index a32975d..49fa659 100644
--- a/ekosis/clients/json/persisted_tcp.py
+++ b/ekosis/clients/json/persisted_tcp.py
@@ -1,6 +1,7 @@
 import asyncio
 
 from typing import Tuple
+from ...data_transfer_objects.json_protocol import MAX_MESSAGE_SIZE
 from ..persistent_stream_client_base import PersistentStreamClientBase
 
 # --------------------------------------------------------------------------------
@@ -20,4 +21,4 @@ class PersistedTCPClient(PersistentStreamClientBase):
 
     # --------------------------------------------------------------------------------
     async def open_connection(self) -> Tuple[asyncio.StreamReader, asyncio.StreamWriter]:
-        return await asyncio.open_connection(self.server_host, self.server_port)
+        return await asyncio.open_connection(self.server_host, self.server_port, limit=MAX_MESSAGE_SIZE)
diff --git a/ekosis/clients/json/persisted_uds.py b/ekosis/clients/json/persisted_uds.py
index bd77019..9c9095d 100644
--- a/ekosis/clients/json/persisted_uds.py
+++ b/ekosis/clients/json/persisted_uds.py
@@ -7,6 +7,7 @@ from pydantic import BaseModel as PydanticBaseModel
 from ..persistent_stream_client_base import PersistentStreamClientBase
 
 from ...data_transfer_objects import EmptyDto, SpanKey
+from ...data_transfer_objects.json_protocol import MAX_MESSAGE_SIZE
 
 # --------------------------------------------------------------------------------
 class PersistedUDSClient(PersistentStreamClientBase):
@@ -24,7 +25,7 @@ class PersistedUDSClient(PersistentStreamClientBase):
 
     # --------------------------------------------------------------------------------
     async def open_connection(self) -> Tuple[asyncio.StreamReader, asyncio.StreamWriter]:
-        return await asyncio.open_unix_connection(self.server_path)
+        return await asyncio.open_unix_connection(self.server_path, limit=MAX_MESSAGE_SIZE)
 
     # --------------------------------------------------------------------------------
     async def send_message(
diff --git a/ekosis/clients/json/transient_tcp.py b/ekosis/clients/json/transient_tcp.py
index ca4c564..f412175 100644
--- a/ekosis/clients/json/transient_tcp.py
+++ b/ekosis/clients/json/transient_tcp.py
@@ -1,6 +1,7 @@
 import asyncio
 
 from typing import Tuple
+from ...data_transfer_objects.json_protocol import MAX_MESSAGE_SIZE
 from ..stream_client_base import StreamClientBase
 
 # --------------------------------------------------------------------------------
@@ -19,4 +20,4 @@ class TransientTCPClient(StreamClientBase):
 
     # --------------------------------------------------------------------------------
     async def open_connection(self) -> Tuple[asyncio.StreamReader, asyncio.StreamWriter]:
-        return await asyncio.open_connection(self.server_host, self.server_port)
+        return await asyncio.open_connection(self.server_host, self.server_port, limit=MAX_MESSAGE_SIZE)
diff --git a/ekosis/clients/json/transient_uds.py b/ekosis/clients/json/transient_uds.py
index 569c6d3..bee44a6 100644
--- a/ekosis/clients/json/transient_uds.py
+++ b/ekosis/clients/json/transient_uds.py
@@ -7,6 +7,7 @@ from pydantic import BaseModel as PydanticBaseModel
 from ..stream_client_base import StreamClientBase
 
 from ...data_transfer_objects import EmptyDto, SpanKey
+from ...data_transfer_objects.json_protocol import MAX_MESSAGE_SIZE
 
 # --------------------------------------------------------------------------------
 class TransientUDSClient(StreamClientBase):
@@ -23,7 +24,7 @@ class TransientUDSClient(StreamClientBase):
 
     # --------------------------------------------------------------------------------
     async def open_connection(self) -> Tuple[asyncio.StreamReader, asyncio.StreamWriter]:
-        return await asyncio.open_unix_connection(self.server_path)
+        return await asyncio.open_unix_connection(self.server_path, limit=MAX_MESSAGE_SIZE)
 
     # --------------------------------------------------------------------------------
     async def send_message(
diff --git a/ekosis/data_transfer_objects/json_protocol.py b/ekosis/data_transfer_objects/json_protocol.py
index deb5baf..9416679 100644
--- a/ekosis/data_transfer_objects/json_protocol.py
+++ b/ekosis/data_transfer_objects/json_protocol.py
@@ -4,6 +4,9 @@ from typing import Any
 from pydantic import BaseModel as PydanticBaseModel
 from .span_id import SpanId, span_id_gen
 
+# A message on a stream, i.e. TCP or UDS, is one line. This is how long it may be, in bytes.
+MAX_MESSAGE_SIZE: int = 64 * 1024 * 1024
+
 # --------------------------------------------------------------------------------
 class SpanKey(PydanticBaseModel):
     trace_id : uuid.UUID
diff --git a/ekosis/servers/json/tcp.py b/ekosis/servers/json/tcp.py
index 17cdc39..a9459e0 100644
--- a/ekosis/servers/json/tcp.py
+++ b/ekosis/servers/json/tcp.py
@@ -2,6 +2,7 @@ import asyncio
 
 from ..stream_server_base import StreamServerBase
 
+from ...data_transfer_objects.json_protocol import MAX_MESSAGE_SIZE
 from ...configuration.config_models import ConfigTCP
 
 # --------------------------------------------------------------------------------
@@ -36,7 +37,7 @@ class TCPServer(StreamServerBase):
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
-        self._server   = await asyncio.start_server(self._handle_request, self.host, self.port)
+        self._server   = await asyncio.start_server(self._handle_request, self.host, self.port, limit=MAX_MESSAGE_SIZE)
         serving_address = self._server.sockets[0].getsockname()
         self._logger.info(f'Serving TCP on {serving_address}')
 
diff --git a/ekosis/servers/json/uds.py b/ekosis/servers/json/uds.py
index 30fe199..0a56dd7 100644
--- a/ekosis/servers/json/uds.py
+++ b/ekosis/servers/json/uds.py
@@ -3,6 +3,7 @@ import socket
 
 from ..stream_server_base import StreamServerBase
 
+from ...data_transfer_objects.json_protocol import MAX_MESSAGE_SIZE
 from ...configuration.config_models import ConfigUDS
 
 # --------------------------------------------------------------------------------
@@ -41,7 +42,7 @@ class UDSServer(StreamServerBase):
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
-        self._server   = await asyncio.start_unix_server(self._handle_request, self.__server_path)
+        self._server   = await asyncio.start_unix_server(self._handle_request, self.__server_path, limit=MAX_MESSAGE_SIZE)
         serving_address = self._server.sockets[0].getsockname()
         self._logger.info(f'Serving UDS on {serving_address}')
 
-- 
2.43.0


From efc923b691958e4d40b2fd0e974fef6f0653d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:06 +0000
Subject: [PATCH 19/37] fix: percentiles of response times stay within the
 response times observed

The default method of statistics.quantiles estimates the quantiles of a
population the data is a sample of: with fewer than 100 calls it extrapolates,
and reported a p95 and p99 longer than the longest call there was.
---
 ekosis/state_keepers/statistics_keeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/state_keepers/statistics_keeper.py b/ekosis/state_keepers/statistics_keeper.py
index eaa5450..5c405e9 100644
--- a/ekosis/state_keepers/statistics_keeper.py
+++ b/ekosis/state_keepers/statistics_keeper.py
@@ -37,7 +37,7 @@ class StatisticsKeeper(metaclass=SingletonType):
         for key, duration_list in self.__endpoint_durations.items():
             if len(duration_list) >= 2:
                 sorted_durations = sorted(duration_list)
-                quantiles        = statistics.quantiles(sorted_durations, n=100)
+                quantiles        = statistics.quantiles(sorted_durations, n=100, method='inclusive')
                 p95              = quantiles[94]
                 p99              = quantiles[98]
                 retval[key]      = (p95, p99)
-- 
2.43.0


From fc393389450549bc4c7644870e92bb9621a16a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:26 +0000
Subject: [PATCH 20/37] fix: apply the configured log level

Neither ECOENV_LOG_LEVEL nor the level in a configuration file had any effect:
applications logged at level debug until told otherwise at runtime.
---
 ekosis/logs/logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis/logs/logger.py b/ekosis/logs/logger.py
index eac2150..f867b48 100644
--- a/ekosis/logs/logger.py
+++ b/ekosis/logs/logger.py
@@ -11,7 +11,7 @@ from ..util import SingletonType
 class EcoLogger(metaclass=SingletonType):
     __app_config        : AppConfiguration            = AppConfiguration()
     __log_config        : ConfigLogging               = __app_config.logging
-    __level             : int                         = logging.DEBUG
+    __level             : int                         = logging.INFO
     __logger            : logging.Logger              = None
     __formatter         : logging.Formatter           = None
     __file_handler      : BufferedRotatingFileHandler = None
@@ -87,7 +87,7 @@ class EcoLogger(metaclass=SingletonType):
         if not self.__log_config.file_only: # pragma: no cover
             self.__setup_console_logging()
 
-        self.__logger.setLevel(self.__level)
+        self.set_level(self.__log_config.level)
         # This switches asyncio logging to level WARNING
         # logging.getLogger('asyncio').setLevel(logging.WARNING)
 
-- 
2.43.0


From d12e637fb11400d847f6befda9bc9f1cd61677d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:50 +0000
Subject: [PATCH 21/37] fix: buffered log records keep the request they were
 logged for

Records were formatted when the buffer was flushed, and got the trace and span
id of the request that happened to cause the flush (and their arguments as they
were by then). Flushing also holds the handler's lock now, as emitting does.
---
 ekosis/logs/buffered_rotating_file_handler.py | 24 ++++++++++++++++---
 ekosis/logs/otlp_formatter.py                 |  2 +-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index c9073ef..a3c291f 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -1,5 +1,9 @@
+import copy
+
 from logging.handlers import RotatingFileHandler, BufferingHandler
 
+from ..requests.request_context import _get_current_span_key
+
 # --------------------------------------------------------------------------------
 class BufferedRotatingFileHandler(BufferingHandler):
     def __init__(
@@ -30,10 +34,24 @@ class BufferedRotatingFileHandler(BufferingHandler):
     def setFormatter(self, formatter):
         self.rotating_file_handler.setFormatter(formatter)
 
+    # The record is written later, possibly much later: what it says, and which
+    # request it belongs to, has to be settled now.
+    def emit(self, record):
+        try:
+            buffered_record              = copy.copy(record)
+            buffered_record.msg          = record.getMessage()
+            buffered_record.args         = None
+            buffered_record.eco_span_key = _get_current_span_key()
+        except Exception:
+            self.handleError(record)
+            return
+        super().emit(buffered_record)
+
     def flush(self):
-        for record in self.buffer:
-            self.rotating_file_handler.emit(record)
-        self.buffer = []
+        with self.lock:
+            for record in self.buffer:
+                self.rotating_file_handler.emit(record)
+            self.buffer = []
 
     def close(self): # pragma: no cover
         self.rotating_file_handler.close()
diff --git a/ekosis/logs/otlp_formatter.py b/ekosis/logs/otlp_formatter.py
index dea5e83..2161590 100644
--- a/ekosis/logs/otlp_formatter.py
+++ b/ekosis/logs/otlp_formatter.py
@@ -9,7 +9,7 @@ from ..requests.request_context import _get_current_span_key
 class OtlpFormatter(logging.Formatter):
     def format(self, record: logging.LogRecord) -> str:
         severity_number, severity_text = severity_for_levelno(record.levelno)
-        span_key                       = _get_current_span_key()
+        span_key                       = record.eco_span_key if hasattr(record, "eco_span_key") else _get_current_span_key()
         app_config                     = AppConfiguration()
 
         log_record = OtlpLogRecord(
-- 
2.43.0


From d55de694a1765af820a7fa958778fb9b52eac668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:13 +0000
Subject: [PATCH 22/37] fix: one running instance per application and instance
 id, whatever the lock file holds

A lock file that was empty or not a number kept the application from starting,
as did one that holds the process id the new process happens to have (as in
a restarted container); the lock of a process of another user was taken for
stale; and two processes starting at the same time could both get the lock.
---
 ekosis/application_base.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index ec01ab9..8b7c44c 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -4,6 +4,11 @@ import signal
 import argparse
 import logging
 
+try:
+    import fcntl
+except ImportError: # Not available on Windows.
+    fcntl = None
+
 from .logs import EcoLogger
 from .configuration.config_models import AppConfiguration
 
@@ -143,30 +148,38 @@ class ApplicationBase(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     @staticmethod
     def __process_id_check(process_id: int) -> bool:
+        if process_id < 1 or process_id == os.getpid():
+            return False
         try:
             os.kill(process_id, 0)
-        except OSError:
+        except PermissionError: # It exists, it just isn't ours.
+            return True
+        except (OSError, OverflowError):
             return False
         return True
 
     # --------------------------------------------------------------------------------
     @staticmethod
-    def __create_lock_file(lock_file_path: str):
-        process_id = os.getpid()
-        with open(lock_file_path, "w") as lock_file:
-            lock_file.write(f"{process_id}\n")
+    def __parse_process_id(lock_file_line: str) -> int:
+        try:
+            return int(lock_file_line)
+        except ValueError: # Whoever created the file, did not get to write their process id.
+            return 0
 
     # --------------------------------------------------------------------------------
     def __lock_file_check(self):
         lock_file_name  = f"{self._configuration.name}-{self._configuration.instance}.lock"
         lock_file_path  = f"{self._configuration.lock_directory}/{lock_file_name}"
-        if os.path.exists(lock_file_path):
-            with open(lock_file_path, "r") as lock_file:
-                process_id = int(lock_file.readline())
+        with open(lock_file_path, "a+", errors="replace") as lock_file:
+            if fcntl: # Only one at a time gets to look at the file and write to it.
+                fcntl.flock(lock_file, fcntl.LOCK_EX)
+            lock_file.seek(0)
+            process_id = self.__parse_process_id(lock_file.readline())
             if self.__process_id_check(process_id):
                 raise InstanceAlreadyRunningException(self._configuration.name, self._configuration.instance, process_id)
-            os.remove(lock_file_path)
-        self.__create_lock_file(lock_file_path)
+            lock_file.seek(0)
+            lock_file.truncate()
+            lock_file.write(f"{os.getpid()}\n")
 
     # --------------------------------------------------------------------------------
     def __configure_basics(self) -> None:
-- 
2.43.0


From cc7585089e19e7c0ab96376ed3198dfcd072f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 23/37] fix: LRU cache keeps its order and its size limit

Reading the first item that was cached and then adding another one broke the
list (its tail was never updated), and items that were removed were later
replaced in place of the least recently used one, so that the cache grew
beyond its maximum size.
---
 ekosis/cacheing/lru_cache.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/ekosis/cacheing/lru_cache.py b/ekosis/cacheing/lru_cache.py
index 79dd70f..af46958 100644
--- a/ekosis/cacheing/lru_cache.py
+++ b/ekosis/cacheing/lru_cache.py
@@ -8,7 +8,6 @@ class LRUCache:
         self.max_size     : int                   = max_size
         self._cached_items: Dict[Any, LRUCachedItem] = {}
         self.head         : LRUCachedItem            = None
-        self.tail         : LRUCachedItem            = None
 
     # --------------------------------------------------------------------------------
     def __insert(self, key: Any, value: Any):
@@ -17,17 +16,13 @@ class LRUCache:
         new_node.key   = key
         new_node.value = value
         if self.head is None:
-            self.head = new_node
-            self.tail = new_node
-        else:
-            new_node.previous = self.tail
-            new_node.next     = self.head
-            if self.tail is self.head:
-                self.head.previous = new_node
-                self.head.next     = new_node
-            else:
-                self.tail.next     = new_node
-                self.head.previous = new_node
+            new_node.previous = new_node
+            new_node.next     = new_node
+        else: # The list is circular, the least recently used item comes right before the head.
+            new_node.previous       = self.head.previous
+            new_node.next           = self.head
+            self.head.previous.next = new_node
+            self.head.previous      = new_node
         self._cached_items[key] = new_node
         return new_node
 
@@ -159,10 +154,11 @@ class LRUCache:
             self.__list_move_to_front(cached_item)
             return
 
-        if len(self._cached_items) < self.max_size:
+        last_is_empty = self.head is not None and self.head.previous.empty
+        if len(self._cached_items) < self.max_size and not last_is_empty:
             cached_item = self.__insert(key, value)
             self.head   = cached_item
-        else:
+        else: # Items that were removed are kept at the end of the list, and used again.
             self.__replace_least_recently_used(key, value)
 
     # --------------------------------------------------------------------------------
-- 
2.43.0


From 6c3241b08d5d3acbad4221ac53361dac7caafb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:11 +0000
Subject: [PATCH 24/37] fix: clearing a negative number of errors does not add
 errors

---
 ekosis/state_keepers/error_state_keeper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/state_keepers/error_state_keeper.py b/ekosis/state_keepers/error_state_keeper.py
index 68eec26..0faa653 100644
--- a/ekosis/state_keepers/error_state_keeper.py
+++ b/ekosis/state_keepers/error_state_keeper.py
@@ -24,6 +24,8 @@ class ErrorStateKeeper:
         self._error_count += 1
 
     def clear_some(self, how_many: int):
+        if how_many < 0: # Clearing must not add errors.
+            return
         if self._error_count >= how_many:
             self._error_count = self._error_count - how_many
         else:
-- 
2.43.0


From 18ed746a92f50f2b8fa317235cfab8d7cbd8c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:25 +0000
Subject: [PATCH 25/37] fix: buffered sender management from the command line

The command read options its argument parser does not define, so every
invocation ended in an AttributeError; a malformed server address ended in a
TypeError instead of the error message.
---
 ekosis/cli/bsm.py              | 17 +++++------------
 ekosis/cli/shared_functions.py | 10 ++++++----
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/ekosis/cli/bsm.py b/ekosis/cli/bsm.py
index 1982925..8ff920b 100644
--- a/ekosis/cli/bsm.py
+++ b/ekosis/cli/bsm.py
@@ -25,16 +25,9 @@ command_line_args: argparse.Namespace = argument_parser.parse_args()
 
 # --------------------------------------------------------------------------------
 async def do_sender_action(client: ClientBase, route_key: str):
-    if (command_line_args.pause_receiving   or
-        command_line_args.pause_processing  or
-        command_line_args.unpause_receiving or
-        command_line_args.unpause_processing):
-        print_error(argument_parser, "Pause and UN-Pause for receiving and processing, is only for buffered endpoints!")
-
-    if command_line_args.data or not any_true_check([
-        command_line_args.data,
-        command_line_args.pause_all,
-        command_line_args.unpause_all,
+    if not any_true_check([
+        command_line_args.pause_sending,
+        command_line_args.unpause_sending,
         command_line_args.error_10,
         command_line_args.reprocess_all,
         command_line_args.clear,
@@ -45,10 +38,10 @@ async def do_sender_action(client: ClientBase, route_key: str):
         await EcoBufferedSenderDataSender(client).send(route_key)
         return
 
-    if command_line_args.pause_all:
+    if command_line_args.pause_sending:
         await EcoBufferedSenderSendProcessPauseSender(client).send(route_key)
         return
-    if command_line_args.unpause_all:
+    if command_line_args.unpause_sending:
         await EcoBufferedSenderSendProcessUnPauseSender(client).send(route_key)
         return
     if command_line_args.error_10:
diff --git a/ekosis/cli/shared_functions.py b/ekosis/cli/shared_functions.py
index 95a595c..72684a9 100644
--- a/ekosis/cli/shared_functions.py
+++ b/ekosis/cli/shared_functions.py
@@ -3,15 +3,17 @@ import argparse
 
 from typing import List, Tuple
 
+from .shared_argument_parser import argument_parser
+
 from ..clients import TransientTCPClient, UDPClient, TransientUDSClient, ClientBase
 
 # --------------------------------------------------------------------------------
 def make_tcp_udp_host_port(server_details: str) -> Tuple[str, int]:
-    host, port = server_details.split(":")
+    host, _, port = server_details.rpartition(":")
     if not host:
-        print_error(f"Could not extract host from command: {server_details}")
-    if not port:
-        print_error(f"Could not extract port from command: {server_details}")
+        print_error(argument_parser, f"Could not extract host from command: {server_details}")
+    if not port.isdecimal():
+        print_error(argument_parser, f"Could not extract port from command: {server_details}")
     return host, int(port)
 
 # --------------------------------------------------------------------------------
-- 
2.43.0


From 6fec8cd11729cda1dc05427a707bf64759252462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:25 +0000
Subject: [PATCH 26/37] fix: initiate_otlp_tracing imports the modules of its
 own package

---
 ekosis_otlp_traces/ekosis_otlp_traces/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
index 701984e..18b6c58 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
@@ -1,8 +1,8 @@
 from ekosis.configuration.config_models                          import AppConfiguration
 from ekosis.middleware.manager                                   import MiddlewareManager
 from ekosis.middleware.buffered_middleware_manager               import BufferedMiddlewareManager
-from ekosis_otlp_traces.ekosis_otlp_traces.middleware            import OtlpTracingMiddleware
-from ekosis_otlp_traces.ekosis_otlp_traces.buffered_middleware   import OtlpBufferedTracingMiddleware
+from .middleware                                                 import OtlpTracingMiddleware
+from .buffered_middleware                                        import OtlpBufferedTracingMiddleware
 
 # --------------------------------------------------------------------------------
 def initiate_otlp_tracing():
-- 
2.43.0


From 6d05329167f06de813e70f836337499849358385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:25 +0000
Subject: [PATCH 27/37] fix: publish metrics for route keys of any depth

Only route keys with exactly one '.' were published; endpoints and queues with
a shorter or longer route key silently had no metrics.
---
 .../ekosis_prometheus/stats_translator.py     | 77 ++++++++++---------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/stats_translator.py b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
index 9af7e92..6656096 100644
--- a/ekosis_prometheus/ekosis_prometheus/stats_translator.py
+++ b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
@@ -17,6 +17,25 @@ def _flatten(obj: Any, prefix: str) -> Generator[Tuple[str, float], None, None]:
         yield prefix, float(obj)
 
 
+# --------------------------------------------------------------------------------
+def _iter_route_data(
+    data           : Dict,
+    exclude_groups : Set[str],
+    leaf_keys      : Set[str],
+    prefix         : Tuple[str, ...] = (),
+) -> Generator[Tuple[str, str, dict], None, None]:
+    # Statistics are nested one level per '.' in a route key, and a route key may have
+    # any number of them. The first one is the group, what is left is the endpoint.
+    for name, child in data.items():
+        if not isinstance(child, dict) or (not prefix and name in exclude_groups):
+            continue
+        path = (*prefix, name)
+        if any(not isinstance(child.get(key, {}), dict) for key in leaf_keys):
+            group = path[0] if len(path) > 1 else ""
+            yield group, ".".join(path[1:] or path), child
+        yield from _iter_route_data(child, exclude_groups, leaf_keys, path)
+
+
 # --------------------------------------------------------------------------------
 def _iter_queue_groups(
     queue_data     : Dict,
@@ -24,21 +43,14 @@ def _iter_queue_groups(
     metric_prefix  : str,
     labels         : Dict,
 ) -> Generator[Tuple[str, float, dict], None, None]:
-    for group, endpoints in queue_data.items():
-        if group in exclude_groups:
-            continue
-        if not isinstance(endpoints, dict):
-            continue
-        for endpoint_name, sizes in endpoints.items():
-            if not isinstance(sizes, dict):
-                continue
-            queue_labels = {**labels, "group": group, "endpoint": endpoint_name}
-            pending = sizes.get("pending")
-            if pending is not None:
-                yield f"{metric_prefix}_queue_pending", float(pending), queue_labels
-            error = sizes.get("error")
-            if error is not None:
-                yield f"{metric_prefix}_queue_error", float(error), queue_labels
+    for group, endpoint_name, sizes in _iter_route_data(queue_data, exclude_groups, {"pending", "error"}):
+        queue_labels = {**labels, "group": group, "endpoint": endpoint_name}
+        pending = sizes.get("pending")
+        if isinstance(pending, (int, float)):
+            yield f"{metric_prefix}_queue_pending", float(pending), queue_labels
+        error = sizes.get("error")
+        if isinstance(error, (int, float)):
+            yield f"{metric_prefix}_queue_error", float(error), queue_labels
 
 
 # --------------------------------------------------------------------------------
@@ -78,27 +90,20 @@ def translate_gathered_stats(
 
     # endpoint_data -- call_count, p95, p99 per endpoint (user groups only)
     endpoint_data = stats.get("endpoint_data", {})
-    for group, endpoints in endpoint_data.items():
-        if group in exclude_groups:
-            continue
-        if not isinstance(endpoints, dict):
-            continue
-        for endpoint_name, data in endpoints.items():
-            if not isinstance(data, dict):
-                continue
-            endpoint_labels = {**labels, "group": group, "endpoint": endpoint_name}
-
-            call_count = data.get("call_count")
-            if call_count is not None:
-                yield "ekosis_endpoint_call_count", float(call_count), endpoint_labels
-
-            p95 = data.get("p95")
-            if p95 is not None and p95 >= 0:
-                yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
-
-            p99 = data.get("p99")
-            if p99 is not None and p99 >= 0:
-                yield "ekosis_endpoint_p99_seconds", float(p99), endpoint_labels
+    for group, endpoint_name, data in _iter_route_data(endpoint_data, exclude_groups, {"call_count", "p95", "p99"}):
+        endpoint_labels = {**labels, "group": group, "endpoint": endpoint_name}
+
+        call_count = data.get("call_count")
+        if isinstance(call_count, (int, float)):
+            yield "ekosis_endpoint_call_count", float(call_count), endpoint_labels
+
+        p95 = data.get("p95")
+        if isinstance(p95, (int, float)) and p95 >= 0:
+            yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
+
+        p99 = data.get("p99")
+        if isinstance(p99, (int, float)) and p99 >= 0:
+            yield "ekosis_endpoint_p99_seconds", float(p99), endpoint_labels
 
     # buffered endpoint queues
     yield from _iter_queue_groups(
-- 
2.43.0


From 80c86f9863977e6c42a5420ec46f73167e16f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:47 +0000
Subject: [PATCH 28/37] fix: discover services that use the default socket file
 name

---
 ekosis_prometheus/ekosis_prometheus/service_discovery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ekosis_prometheus/ekosis_prometheus/service_discovery.py b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
index 92a7172..23fd24a 100644
--- a/ekosis_prometheus/ekosis_prometheus/service_discovery.py
+++ b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
@@ -59,6 +59,9 @@ def discover_local_services() -> List[DiscoveredService]:
             name, instance = _parse_name_instance(raw_name)
 
             if protocol == "UDS":
+                if os.path.basename(value) == "DEFAULT":
+                    # The application makes up its own socket file name in this case
+                    value = os.path.join(os.path.dirname(value), f"{name}_{instance}.uds.sock")
                 services.append(DiscoveredService(
                     name     = name,
                     instance = instance,
-- 
2.43.0


From 5c4737ca8b95db0b4963a9a2800ad0d19497ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 29/37] fix: a rotation the shipper sees half way does not lose
 lines

- when the new file can not be opened yet, the lines drained from the old file
  were lost with the exception, and the shipper stopped
- an inode that was reused for a new, smaller file is not the file left off on
---
 ekosis_log_shipper/src/tracked_file.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 2908b23..af82959 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -17,7 +17,8 @@ TrackedFile::TrackedFile(std::string path, uint64_t resume_inode, uint64_t resum
     : _path(std::move(path))
 {
     struct stat path_stat{};
-    if (::stat(_path.c_str(), &path_stat) == 0 && static_cast<uint64_t>(path_stat.st_ino) == resume_inode) {
+    if (::stat(_path.c_str(), &path_stat) == 0 && static_cast<uint64_t>(path_stat.st_ino) == resume_inode
+        && static_cast<uint64_t>(path_stat.st_size) >= resume_offset) { // smaller: not that file, its inode was reused
         open_at_path(resume_offset); // same file we left off on -- resume exactly where we stopped
     } else {
         open_at_path(0); // rotated while we were away -- start the current file from the top
@@ -33,18 +34,22 @@ TrackedFile::~TrackedFile() {
 
 // --------------------------------------------------------------------------------
 void TrackedFile::open_at_path(uint64_t start_offset) {
-    _fd = ::open(_path.c_str(), O_RDONLY);
-    if (_fd == -1) {
+    int fd = ::open(_path.c_str(), O_RDONLY);
+    if (fd == -1) {
         throw std::runtime_error("TrackedFile: unable to open '" + _path + "'");
     }
 
     struct stat file_stat{};
-    if (::fstat(_fd, &file_stat) != 0) {
-        ::close(_fd);
-        _fd = -1;
+    if (::fstat(fd, &file_stat) != 0) {
+        ::close(fd);
         throw std::runtime_error("TrackedFile: unable to fstat '" + _path + "'");
     }
 
+    if (_fd != -1) {
+        ::close(_fd);
+    }
+    _fd = fd;
+
     if (start_offset > 0) {
         ::lseek(_fd, static_cast<off_t>(start_offset), SEEK_SET);
     }
@@ -89,9 +94,11 @@ std::vector<std::string> TrackedFile::poll() {
         // file regardless of its current name -- this is what makes the
         // drain safe rather than a race against the rename.
         read_available_lines(lines);
-        ::close(_fd);
-        _fd = -1;
-        open_at_path(0);
+        try {
+            open_at_path(0);
+        } catch (const std::runtime_error&) {
+            return lines; // rotated again in between: stay with the old file until the next poll
+        }
     }
 
     read_available_lines(lines);
-- 
2.43.0


From e5b040d7133f411e7ba47fdc4cbeba8ebdc8a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 30/37] fix: a line that is not a log record does not stop log
 shipping

A half written line (its application was killed) made the shipper end with an
uncaught exception, on every start. A file that vanishes between listing and
opening did the same.
---
 ekosis_log_shipper/src/main.cpp          | 20 ++++++++++++++++----
 ekosis_log_shipper/src/otlp_envelope.cpp | 11 +++++++++++
 ekosis_log_shipper/src/otlp_envelope.hpp |  4 ++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 6d0b7bd..ceae951 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <map>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -69,9 +70,14 @@ int main(int argc, char** argv) {
         }
         auto         resume = state_store.load(path);
         WatchedFile  wf;
-        wf.tracked = resume
-            ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
-            : std::make_unique<TrackedFile>(path);
+        try {
+            wf.tracked = resume
+                ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
+                : std::make_unique<TrackedFile>(path);
+        } catch (const std::runtime_error& e) {
+            std::cerr << "ekosis_log_shipper: " << e.what() << "\n"; // gone again, or not readable (yet)
+            return;
+        }
         watched.emplace(path, std::move(wf));
         std::cout << "ekosis_log_shipper: watching " << path << "\n";
     };
@@ -101,7 +107,13 @@ int main(int argc, char** argv) {
 
         for (auto& [path, wf] : watched) {
             if (wf.undelivered.empty()) {
-                wf.undelivered = wf.tracked->poll();
+                for (auto& line : wf.tracked->poll()) {
+                    if (is_log_record(line)) {
+                        wf.undelivered.push_back(std::move(line));
+                    } else {
+                        std::cerr << "ekosis_log_shipper: skipping a line in " << path << " that is not a log record\n";
+                    }
+                }
             }
             if (wf.undelivered.empty()) {
                 continue;
diff --git a/ekosis_log_shipper/src/otlp_envelope.cpp b/ekosis_log_shipper/src/otlp_envelope.cpp
index ad5b0f0..0d1630f 100644
--- a/ekosis_log_shipper/src/otlp_envelope.cpp
+++ b/ekosis_log_shipper/src/otlp_envelope.cpp
@@ -88,6 +88,17 @@ ResourceInfo extract_resource_info(const std::string& json_line) {
     return info;
 }
 
+// --------------------------------------------------------------------------------
+bool is_log_record(const std::string& line) {
+    try {
+        extract_resource_info(line);
+        convert_one_record(json::parse(line));
+        return true;
+    } catch (const json::exception&) {
+        return false;
+    }
+}
+
 // --------------------------------------------------------------------------------
 std::string build_otlp_logs_payload(const std::vector<std::string>& json_lines, const ResourceInfo& resource) {
     json log_records = json::array();
diff --git a/ekosis_log_shipper/src/otlp_envelope.hpp b/ekosis_log_shipper/src/otlp_envelope.hpp
index 7d9db8a..54351ef 100644
--- a/ekosis_log_shipper/src/otlp_envelope.hpp
+++ b/ekosis_log_shipper/src/otlp_envelope.hpp
@@ -17,6 +17,10 @@ struct ResourceInfo {
 // rather than parsing it out of the filename.
 ResourceInfo extract_resource_info(const std::string& json_line);
 
+// False for a line that is not an OtlpLogRecord, e.g. one that an application
+// which got killed, left half written.
+bool is_log_record(const std::string& line);
+
 // Wraps raw OtlpLogRecord JSON lines (one per ekosis log line) into one
 // OTLP/HTTP+JSON logs export payload: resourceLogs -> scopeLogs ->
 // logRecords. Mechanical, fixed shape -- no branching on log content.
-- 
2.43.0


From 385a6b8edba28aabbe24d3eb4c18cae92934f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:34 +0000
Subject: [PATCH 31/37] fix: a stop that arrives during start-up does not lose
 what is buffered

A server that is not listening yet raised an AttributeError when it was
stopped, which ended the shutdown before the buffers were written.
---
 ekosis/requests/buffered_handler_base.py | 2 ++
 ekosis/sending/buffered_sender_base.py   | 2 ++
 ekosis/servers/json/tcp.py               | 4 ++--
 ekosis/servers/json/uds.py               | 4 ++--
 ekosis/servers/stream_server_base.py     | 5 +++++
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 1ccf460..81a526f 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -159,6 +159,8 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     def __shut_down_check(self):
+        if self.queue is None: # We can be stopped before we got to be set up.
+            return
         if not self.running and self.shutdown:
             route_key = self.get_route_key()
             self.log.info(f"Buffered handler [{route_key}] stopping.")
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 533b699..314c0de 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -71,6 +71,8 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     def __shut_down_check(self):
+        if self.queue is None: # We can be stopped before we got to be set up.
+            return
         if not self.running and self.shutdown:
             route_key = self.get_route_key()
             self.log.info(f"Buffered sender [{route_key}] stopping.")
diff --git a/ekosis/servers/json/tcp.py b/ekosis/servers/json/tcp.py
index a9459e0..778bc72 100644
--- a/ekosis/servers/json/tcp.py
+++ b/ekosis/servers/json/tcp.py
@@ -21,7 +21,7 @@ class TCPServer(StreamServerBase):
             await self.__setup_server()
         except Exception as e:
             self._running = False
-            self._server.close()
+            self._close_server()
             raise e
 
     # --------------------------------------------------------------------------------
@@ -33,7 +33,7 @@ class TCPServer(StreamServerBase):
         if self._running:
             self._running = False
             self._logger.info(f"Stopping TCP server for {self.host}:{self.port}.")
-            self._server.close()
+            self._close_server()
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
diff --git a/ekosis/servers/json/uds.py b/ekosis/servers/json/uds.py
index 0a56dd7..b9cd560 100644
--- a/ekosis/servers/json/uds.py
+++ b/ekosis/servers/json/uds.py
@@ -23,7 +23,7 @@ class UDSServer(StreamServerBase):
                 await self.__setup_server()
             except Exception as e:
                 self._running = False
-                self._server.close()
+                self._close_server()
                 raise e
         else:
             self._logger.info(f"UDS not supported on this platform, will not start server.")
@@ -38,7 +38,7 @@ class UDSServer(StreamServerBase):
         if self._running:
             self._running = False
             self._logger.info(f"Stopping UDS server for {self.__server_path}.")
-            self._server.close()
+            self._close_server()
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index 51b0c61..d9f1630 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -12,6 +12,11 @@ class StreamServerBase(ServerBase):
         self.__LF_byte     : int            = 10 # Decimal 10 = Ascii LF (line feed) character = '\n'
         self.__ACK_response: bytes          = bytes([self.__ACK_byte, self.__LF_byte])
 
+    # --------------------------------------------------------------------------------
+    def _close_server(self):
+        if self._server is not None: # We can be stopped before we got to serve anything.
+            self._server.close()
+
     # --------------------------------------------------------------------------------
     async def __write_data(self, writer: asyncio.StreamWriter, data: bytes):
         writer.write(data)
-- 
2.43.0


From ac4503984156b19cb278db3edb9d89fbc801e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:22 +0000
Subject: [PATCH 32/37] fix: a request that arrives during the shutdown does
 not start the processing again

It started a processing task nothing waits for: the request it took and
everything still buffered with it were lost.
---
 ekosis/application_base.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 8b7c44c..c9a3db0 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -92,8 +92,8 @@ class ApplicationBase(metaclass=SingletonType):
         self.__configure_basics()
 
     # --------------------------------------------------------------------------------
-    @staticmethod
-    def __raise_termination():
+    def __raise_termination(self):
+        self.__pause_buffers()
         raise TerminationSignalException("Exit signal received")
 
     # --------------------------------------------------------------------------------
@@ -241,13 +241,21 @@ class ApplicationBase(metaclass=SingletonType):
         for buffered_sender in buffered_sender_keeper.get_buffered_senders():
             buffered_sender.shut_down()
 
+    # --------------------------------------------------------------------------------
+    def __pause_buffers(self): # Nothing that gets to run from here on, may start on the next buffered request.
+        for buffered_handler in self.__request_router.get_buffered_handlers():
+            buffered_handler.pause_receiving()
+            buffered_handler.pause_processing()
+        for buffered_sender in BufferedSenderKeeper().get_buffered_senders():
+            buffered_sender.pause_send_process()
+
     # --------------------------------------------------------------------------------
     def start(self):
         if not self.__running:
             self.logger.info("Application not running in context. Shutting down.")
             self.__eco_logger.flush()
             return
-        asyncio.run(self.__start())
+        asyncio.run(self.__run())
 
     # --------------------------------------------------------------------------------
     def stop(self):
@@ -301,6 +309,13 @@ class ApplicationBase(metaclass=SingletonType):
     async def setup_tasks(self, tasks: list):
         pass
 
+    # --------------------------------------------------------------------------------
+    async def __run(self):
+        try:
+            await self.__start()
+        finally:
+            self.__pause_buffers()
+
     # --------------------------------------------------------------------------------
     async def __start(self):
         tasks = []
-- 
2.43.0


From c87d0ed65c20a3ac889d2059fdf678dc08eeccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:33 +0000
Subject: [PATCH 33/37] fix: a request that is valid JSON but not an object is
 a validation error

---
 ekosis/requests/handler_base.py | 2 +-
 ekosis/servers/server_base.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis/requests/handler_base.py b/ekosis/requests/handler_base.py
index e2bfdb2..74008a1 100644
--- a/ekosis/requests/handler_base.py
+++ b/ekosis/requests/handler_base.py
@@ -24,7 +24,7 @@ class HandlerBase(ABC):
         return self._route_key
 
     async def attempt_request(self, protocol_dto, **kwargs) -> PydanticBaseModel:
-        kwargs["dto"] = self.request_dto_type(**protocol_dto.data)
+        kwargs["dto"] = self.request_dto_type.model_validate(protocol_dto.data)
         return await self.run(**kwargs)
 
     @abstractmethod
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index 05c2225..071bce1 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -46,7 +46,7 @@ class ServerBase:
         try:
             start_time   = timeit.default_timer()
             request_dict = json.loads(request.decode().strip())
-            protocol_dto = RequestDTO(**request_dict)
+            protocol_dto = RequestDTO.model_validate(request_dict)
             span_key     = protocol_dto.span_key
             token        = _set_current_span_key(span_key)
             try:
-- 
2.43.0


From 5dff0686aa60c4dd2fefff5742238e922da576cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:44 +0000
Subject: [PATCH 34/37] fix: background tasks do not log under the span key of
 the request that happened to start them

---
 ekosis/clients/persistent_stream_client_base.py | 2 ++
 ekosis/requests/buffered_handler_base.py        | 1 +
 ekosis/sending/buffered_sender_base.py          | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index a26b845..4a840e8 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -7,6 +7,7 @@ from typing import Tuple
 
 from .client_base import ClientBase
 
+from ..requests.request_context import _set_current_span_key
 from ..exceptions import (
     CommunicationsNonRetryable,
     CommunicationsMaxRetriesReached,
@@ -88,6 +89,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def __heartbeat_check(self):
+        _set_current_span_key(None) # This task inherits the context of whatever request happened to start it.
         while True:
             last_acceptable_send_time = time.time() - self.__heartbeat_time
             if self.__last_send < last_acceptable_send_time:
diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 81a526f..f1e6e35 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -222,6 +222,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _process_queue(self):
+        _set_current_span_key(None) # This task inherits the context of whatever request happened to start it.
         try:
             self.running = True
             await self.__do_queue_processing()
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 314c0de..ca7d80a 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -9,6 +9,7 @@ from .sender_base import SenderBase
 from ..clients import ClientBase
 from ..data_transfer_objects import EmptyDto, SpanKey
 from ..queues.pending_queue import PendingQueue
+from ..requests.request_context import _set_current_span_key
 from ..state_keepers.statistics_keeper import StatisticsKeeper
 from ..exceptions import ServerBusyException, CommunicationsMaxRetriesReached
 
@@ -115,6 +116,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     async def __process_send_queue(self) -> None:
+        _set_current_span_key(None) # This task inherits the context of whatever request happened to start it.
         try:
             self.running = True
             await self.__do_queue_processing()
-- 
2.43.0


From 6053c3e4ae32a2db857112beeceb4d8306e905b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:34 +0000
Subject: [PATCH 35/37] fix: a second signal at the start of the shutdown does
 not abort it

---
 ekosis/application_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index c9a3db0..79cd083 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -82,6 +82,7 @@ class ApplicationBase(metaclass=SingletonType):
     __statistics_keeper   : StatisticsKeeper        = StatisticsKeeper()
     __error_state_list    : ErrorStateList          = ErrorStateList()
     __running             : bool                    = False
+    __terminating         : bool                    = False
     _configuration        : AppConfiguration        = AppConfiguration()
     __server_tcp          : TCPServer               = None
     __server_udp          : UDPServer               = None
@@ -93,6 +94,9 @@ class ApplicationBase(metaclass=SingletonType):
 
     # --------------------------------------------------------------------------------
     def __raise_termination(self):
+        if self.__terminating: # Signals can get here before further ones are ignored, the shutdown must not be interrupted.
+            return
+        self.__terminating = True
         self.__pause_buffers()
         raise TerminationSignalException("Exit signal received")
 
@@ -314,6 +318,7 @@ class ApplicationBase(metaclass=SingletonType):
         try:
             await self.__start()
         finally:
+            self.__terminating = True
             self.__pause_buffers()
 
     # --------------------------------------------------------------------------------
-- 
2.43.0


From 4702e1e20b27682da22b1e278251fc767bda7e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:24 +0000
Subject: [PATCH 36/37] fix: lines are not lost when a log file is rotated more
 than once while the collector is unavailable

---
 ekosis_log_shipper/src/main.cpp         |  4 +++-
 ekosis_log_shipper/src/tracked_file.cpp | 11 +++++++----
 ekosis_log_shipper/src/tracked_file.hpp |  3 +++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index ceae951..f761b0f 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -106,7 +106,9 @@ int main(int argc, char** argv) {
         }
 
         for (auto& [path, wf] : watched) {
-            if (wf.undelivered.empty()) {
+            // A rotation is followed even while a batch waits to be retried: after the
+            // next one, the file in between could no longer be found.
+            if (wf.undelivered.empty() || wf.tracked->rotated()) {
                 for (auto& line : wf.tracked->poll()) {
                     if (is_log_record(line)) {
                         wf.undelivered.push_back(std::move(line));
diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index af82959..f11fb4f 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -81,14 +81,17 @@ void TrackedFile::read_available_lines(std::vector<std::string>& lines) {
     _pending.erase(0, start);
 }
 
+// --------------------------------------------------------------------------------
+bool TrackedFile::rotated() const {
+    struct stat path_stat{};
+    return ::stat(_path.c_str(), &path_stat) == 0 && static_cast<uint64_t>(path_stat.st_ino) != _inode;
+}
+
 // --------------------------------------------------------------------------------
 std::vector<std::string> TrackedFile::poll() {
     std::vector<std::string> lines;
 
-    struct stat path_stat{};
-    bool        path_exists = ::stat(_path.c_str(), &path_stat) == 0;
-
-    if (path_exists && static_cast<uint64_t>(path_stat.st_ino) != _inode) {
+    if (rotated()) {
         // Rotation: drain whatever is still unread in the OLD file before
         // switching. The old fd is still attached to the renamed/unlinked
         // file regardless of its current name -- this is what makes the
diff --git a/ekosis_log_shipper/src/tracked_file.hpp b/ekosis_log_shipper/src/tracked_file.hpp
index fce8b59..e866f77 100644
--- a/ekosis_log_shipper/src/tracked_file.hpp
+++ b/ekosis_log_shipper/src/tracked_file.hpp
@@ -31,6 +31,9 @@ public:
     // later call, never reported early.
     std::vector<std::string> poll();
 
+    // Whether the path leads to another file by now than the one being read.
+    bool rotated() const;
+
     const std::string& path()   const { return _path;   }
     uint64_t            inode() const { return _inode;  }
     uint64_t            offset() const { return _offset; }
-- 
2.43.0


From 5ed234133a88fc386dc900a83fbb137b57ed4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:00 +0000
Subject: [PATCH 37/37] fix: one span key may be used for several requests at a
 time

The tracing middleware kept its spans per span key. A handler that sends
requests to two endpoints of an application on behalf of one request (as the
observable fun factory example does) uses one span key for both: the second
span took the place of the first, which was then never ended and never
exported, and processing spans could get the wrong parent. The spans are now
kept per request being routed or processed.
---
 .../ekosis_otlp_traces/buffered_middleware.py     | 14 +++++++++-----
 .../ekosis_otlp_traces/middleware.py              | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
index 0d6701e..597b54d 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
@@ -1,3 +1,4 @@
+from contextvars         import ContextVar
 from opentelemetry       import trace
 from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags
 from pydantic            import BaseModel as PydanticBaseModel
@@ -12,8 +13,9 @@ _RECEIVE_SPAN_ID_KEY = "otlp_receive_span_id"
 # --------------------------------------------------------------------------------
 class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
     def __init__(self, tracing_middleware: OtlpTracingMiddleware):
-        self._tracing       = tracing_middleware
-        self._process_spans = {}
+        self._tracing      = tracing_middleware
+        # Per request being processed, not per span key: requests to several endpoints may have the same one.
+        self._process_span = ContextVar("otlp_process_span", default=None)
 
     # --------------------------------------------------------------------------------
     async def before_push(self, span_key: SpanKey, dto: PydanticBaseModel) -> dict:
@@ -40,11 +42,13 @@ class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
         span.set_attribute("request.trace_id", str(span_key.trace_id))
         span.set_attribute("request.span_id",  str(span_key.span_id))
         span.set_attribute("request.retries",  retries)
-        self._process_spans[span_key] = span
+        self._process_span.set((span_key, span))
 
     # --------------------------------------------------------------------------------
     async def after_process(self, span_key: SpanKey, dto: PydanticBaseModel, metadata: dict, success: bool) -> None:
-        span = self._process_spans.pop(span_key, None)
-        if span:
+        processed = self._process_span.get()
+        self._process_span.set(None)
+        if processed and processed[0] == span_key:
+            span = processed[1]
             span.set_attribute("process.success", success)
             span.end()
diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
index 9e8524b..930bc29 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
@@ -1,3 +1,4 @@
+from contextvars                               import ContextVar
 from opentelemetry                             import trace
 from opentelemetry.sdk.trace                   import TracerProvider
 from opentelemetry.sdk.trace.export            import BatchSpanProcessor
@@ -12,7 +13,6 @@ from ekosis.configuration.config_models        import AppConfiguration
 
 # --------------------------------------------------------------------------------
 class OtlpTracingMiddleware(MiddlewareBase):
-    _active_spans        = {}
     application_name     = AppConfiguration().name
     application_instance = AppConfiguration().instance
 
@@ -27,6 +27,8 @@ class OtlpTracingMiddleware(MiddlewareBase):
         provider.add_span_processor(BatchSpanProcessor(exporter))
         trace.set_tracer_provider(provider)
         self._tracer = trace.get_tracer(service_name)
+        # Per request being routed, not per span key: a caller may use one span key for several requests at a time.
+        self._active_span = ContextVar("otlp_active_span", default=None)
 
     # --------------------------------------------------------------------------------
     async def before_routing(self, protocol_dto: RequestDTO, **kwargs) -> RequestDTO:
@@ -41,17 +43,20 @@ class OtlpTracingMiddleware(MiddlewareBase):
         span.set_attribute("request.trace_id",  str(span_key.trace_id))
         span.set_attribute("request.span_id",   str(span_key.span_id))
         span.set_attribute("request.route_key", protocol_dto.route_key)
-        self._active_spans[span_key] = span
+        self._active_span.set((span_key, span))
         return protocol_dto
 
     # --------------------------------------------------------------------------------
     async def after_routing(self, protocol_dto: RequestDTO, response_dto: PydanticBaseModel, **kwargs) -> PydanticBaseModel:
-        span = self._active_spans.pop(protocol_dto.span_key, None)
-        if span:
+        active = self._active_span.get()
+        self._active_span.set(None)
+        if active:
+            span = active[1]
             span.set_status(StatusCode.OK)
             span.end()
         return response_dto
 
     # --------------------------------------------------------------------------------
     def get_active_span(self, span_key: SpanKey):
-        return self._active_spans.get(span_key)
+        active = self._active_span.get()
+        return active[1] if active and active[0] == span_key else None
-- 
2.43.0

