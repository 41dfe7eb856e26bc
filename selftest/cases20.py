"""Opening and closing."""
D="docket.py"; R="_redis.py"; S="_result_store.py"; SL="strikelist.py"; W="worker.py"
I=["C35"]
CASES=[
("o-pool-reset",R,[('                stack.callback(lambda: setattr(self, "_connection_pool", None))\n','')],I),
("o-cluster-reset",R,[('                stack.callback(lambda: setattr(self, "_cluster_client", None))\n','')],I),
("o-nodepool",R,[('                stack.push_async_callback(close_resource, self._node_pool, "node pool")\n','')],I),
("o-pool",R,[('                stack.push_async_callback(\n                    close_resource, self._connection_pool, "connection pool"\n                )\n','')],I),
("o-memory-reset",R,[('                stack.callback(lambda: setattr(self, "_memory_client", None))\n','')],I),
("o-result-pool",S,[('                stack.push_async_callback(close_resource, self._pool, "pool")\n','')],I),
("o-result-client",S,[('                stack.push_async_callback(close_resource, self._client, "client")\n','')],I),
("o-store-setup",S,[('            await self._store.setup()\n\n            # Closed','            # Closed')],I),
("o-monitor-cancel",SL,[('        self._stack.push_async_callback(\n            cancel_task, self._monitor_task, CANCEL_MSG_CLEANUP\n        )\n','')],I),
("o-user-setup",D,[('                    await self.result_storage.setup()  # type: ignore[union-attr]\n','                    pass\n')],I),
("o-no-strikes",D,[('            await stack.enter_async_context(self.strike_list)\n','')],I),
("o-worker-reset",W,[('        self._stack.callback(lambda: current_worker.reset(self._worker_token))\n','')],I),
("o-docket-exit",D,[('            await self._stack.__aexit__(exc_type, exc_value, traceback)\n','            pass\n')],I),
("o-worker-exit",W,[('            await self._stack.__aexit__(exc_type, exc_value, traceback)\n','            pass\n')],I),
("o-early-pop",D,[('            # Connect the strike list to Redis and start monitoring\n','            self._stack = stack.pop_all()\n            stack = self._stack\n'),('            # Closed on leaving, or right here if any of this fails\n            self._stack = stack.pop_all()\n','')],I),
("o-result-early",S,[('            await self._store.setup()\n\n            # Closed','            # Closed'),('            self._stack = stack.pop_all()\n\n        return self','            self._stack = stack.pop_all()\n\n        await self._store.setup()\n        return self')],I),
("o-swallow",D,[('            await stack.enter_async_context(self.strike_list)\n','            try:\n                await stack.enter_async_context(self.strike_list)\n            except Exception:\n                pass\n')],I),
("o-close-swap",D,[('            await self._stack.__aexit__(exc_type, exc_value, traceback)\n','            if exc_type is None:\n                await self._stack.__aexit__(exc_type, exc_value, traceback)\n')],[]),
("o-own-store-unentered",D,[('                await stack.enter_async_context(self._result_storage)\n','')],I),
("o-user-ignored",D,[('                self.result_storage: AsyncKeyValue = self._user_result_storage\n','                self.result_storage: AsyncKeyValue = ResultStorage(self._redis, self.results_collection)\n')],I),
]
