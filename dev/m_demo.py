from mutate import M, N
A = "fcp/demo/aggregations.py"
S = "fcp/demo/server.py"
H = "fcp/demo/http_actions.py"
D = "fcp/demo/media.py"
T = "fcp/demo/task_assignments.py"
E = "fcp/demo/eligibility_eval_tasks.py"
X = "fcp/demo/federated_context.py"
Y = "fcp/demo/federated_data_source.py"
P = "fcp/demo/plan_utils.py"

# F01 released only for enough clients
CHK = """      if (state.agg_protocol.GetStatus().num_inputs_aggregated_and_included <
          state.requirements.minimum_clients_in_server_published_aggregate):
        state.agg_protocol.Abort()
        raise ValueError(
            'minimum_clients_in_server_published_aggregate has not been met.')
"""
M("F01", A, CHK, "")
M("F01", A, "GetStatus().num_inputs_aggregated_and_included <\n", "GetStatus().num_clients_completed <\n")
M("F01", A, "GetStatus().num_inputs_aggregated_and_included <\n", "GetStatus().num_inputs_aggregated_and_included + 1 <\n")
M("F01", A, "        state.agg_protocol.Abort()\n        raise ValueError(\n            'min", "        raise ValueError(\n            'min")
M("F01", A, CHK, CHK.replace("raise ValueError(", "logging.warning("))
M("F01", A, "      if status.status != AggregationStatus.PENDING:\n        return self._get_session_status(state), None\n", "")
M("F01", A, "      if isinstance(result, absl_status.Status):\n        raise absl_status.StatusNotOk(result)\n", "")
M("F01", A, "except (ValueError, absl_status.StatusNotOk, queue.Empty) as e:", "except (absl_status.StatusNotOk, queue.Empty) as e:")
M("F01", A, "      state.status = AggregationStatus.FAILED\n      return self._get_session_status(state), None", "      state.status = AggregationStatus.COMPLETED\n      return self._get_session_status(state), None")
M("F01", A, "    with self._sessions_lock:\n      state = self._sessions.pop(session_id)\n\n    try:", "    with self._sessions_lock:\n      state = self._sessions[session_id]\n\n    try:")
M("F01", S, "minimum_clients_in_server_published_aggregate=number_of_clients", "minimum_clients_in_server_published_aggregate=1")
M("F01", S, "              status.status != aggregations.AggregationStatus.COMPLETED\n              or aggregated_results is None", "              aggregated_results is None")
M("F01", Y, "k is None or k <= 0:\n", "k is None or k < 0:\n")
M("F01", X, "config.num_clients", "1")
N("F01", A, CHK, """      included = state.agg_protocol.GetStatus().num_inputs_aggregated_and_included
      minimum = state.requirements.minimum_clients_in_server_published_aggregate
      if minimum > included:
        state.agg_protocol.Abort()
        raise ValueError('not enough clients')
""")
N("F01", A, CHK, "      self._check_minimum(state)\n", "  def abort_session(self,", """  def _check_minimum(self, state):
    if (state.agg_protocol.GetStatus().num_inputs_aggregated_and_included >=
        state.requirements.minimum_clients_in_server_published_aggregate):
      return
    state.agg_protocol.Abort()
    raise ValueError('not enough')

  def abort_session(self,""")
N("F01", A, CHK, CHK.replace("state.agg_protocol.GetStatus()", "status"))
N("F01", A, "    with self._sessions_lock:\n      state = self._sessions.pop(session_id)\n\n    try:", "    with self._sessions_lock:\n      state = self._sessions[session_id]\n      del self._sessions[session_id]\n\n    try:")
N("F01", S, "          if (\n              status.status != aggregations.AggregationStatus.COMPLETED\n              or aggregated_results is None\n          ):\n            raise ValueError('Aggregation failed.')",
  "          completed = (\n              status.status == aggregations.AggregationStatus.COMPLETED\n              and aggregated_results is not None\n          )\n          if not completed:\n            raise ValueError('Aggregation failed.')")

# F02 tokens
TOK = "        state.authorization_tokens.remove(request.authorization_token)\n"
M("F02", A, TOK, "        if request.authorization_token not in state.authorization_tokens:\n          raise KeyError(request.authorization_token)\n")
M("F02", A, TOK, "        state.authorization_tokens.discard(request.authorization_token)\n")
M("F02", A, ("        client_data = state.active_clients.pop(request.client_token)\n", 0), "        client_data = state.active_clients[request.client_token]\n")
M("F02", A, ("        client_data = state.active_clients.pop(request.client_token)\n", 1), "        client_data = state.active_clients[request.client_token]\n")
M("F02", A, "    if request.resource_name != client_data.resource_name:\n      with contextlib.suppress(KeyError):\n        self._media_service.finalize_upload(client_data.resource_name)\n      raise http_actions.HttpError(http.HTTPStatus.BAD_REQUEST)\n", "")
M("F02", A, "    client_token = str(uuid.uuid4())\n", "    client_token = request.authorization_token\n")
M("F02", A, "client_id = state.agg_protocol.AddClients(1)", "client_id = state.agg_protocol.AddClients(2)")
M("F02", A, "tokens = set(str(uuid.uuid4()) for _ in range(num_tokens))", "tokens = set(f'{session_id}-{i}' for i in range(num_tokens))")
M("F02", A, "tokens = set(str(uuid.uuid4()) for _ in range(num_tokens))", "tokens = set(str(uuid.uuid1()) for _ in range(num_tokens))")
M("F02", A, "for _ in range(num_tokens))", "for _ in range(num_tokens + 1))")
M("F02", A, "            resource_name=upload_name),\n", "            resource_name=client_token),\n")
M("F02", A, "        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e\n\n    client_id", "        raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e\n\n    client_id")
M("F02", A, "      if update is None:\n        raise absl_status.StatusNotOk(\n            absl_status.invalid_argument_error(\n                'Aggregation result never uploaded'))\n", "")
M("F02", A, "    except (KeyError, absl_status.StatusNotOk) as e:\n      if isinstance(e, KeyError):\n        e = absl_status.StatusNotOk(\n            absl_status.internal_error('Failed to finalize upload'))\n", "    except absl_status.StatusNotOk as e:\n")
M("F02", A, "                inline_bytes=update\n", "                inline_bytes=request.resource_name.encode()\n")
N("F02 F04 F05", A, "      try:\n" + TOK + "      except KeyError as e:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e\n",
  "      if request.authorization_token not in state.authorization_tokens:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n      state.authorization_tokens.discard(request.authorization_token)\n")
N("F02 F04 F05", A, """    with self._sessions_lock:
      try:
        state = self._sessions[request.aggregation_id]
      except KeyError as e:
        raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e
      try:
        state.auth""", """    with self._sessions_lock:
      state = self._get_state(request.aggregation_id)
      try:
        state.auth""", "  def _cleanup_session(self,", """  def _get_state(self, aggregation_id):
    try:
      return self._sessions[aggregation_id]
    except KeyError as e:
      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e

  def _cleanup_session(self,""")
N("F02 F04 F05", A, ("""    with self._sessions_lock:
      try:
        state = self._sessions[request.aggregation_id]
      except KeyError as e:
        raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e
      try:
        client_data = state.active_clients.pop(request.client_token)
      except KeyError as e:
        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e
""", 0), "    state, client_data = self._take_client(request.aggregation_id, request.client_token)\n", "  def _cleanup_session(self,", """  def _take_client(self, aggregation_id, client_token):
    with self._sessions_lock:
      if aggregation_id not in self._sessions:
        raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)
      state = self._sessions[aggregation_id]
      client_data = state.active_clients.pop(client_token, None)
      if client_data is None:
        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)
      return state, client_data

  def _cleanup_session(self,""")
N("F02 F04 F05", A, """      try:
        state = self._sessions[request.aggregation_id]
      except KeyError as e:
        raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e
      try:
        state.auth""", """      state = self._sessions.get(request.aggregation_id)
      if state is None:
        raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)
      try:
        state.auth""")
N("F02 F05", A, "    tokens = set(str(uuid.uuid4()) for _ in range(num_tokens))\n    with self._sessions_lock:\n      self._sessions[session_id].authorization_tokens |= tokens\n    return list(tokens)", "    tokens = [str(uuid.uuid4()) for _ in range(num_tokens)]\n    with self._sessions_lock:\n      self._sessions[session_id].authorization_tokens.update(tokens)\n    return tokens")

# F03 populations
POP = "    if request.population_name != self._population_name:\n      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)\n"
for k in (0, 1, 2):
    M("F03", T, (POP, k), "")
for k in (0, 1):
    M("F03", E, (POP, k), "")
M("F03", T, (POP, 1), POP.replace("!= self._population_name", "== ''"))
M("F03", T, (POP, 1), POP.replace("if request.", "if request.population_name and request."))
M("F03", T, (POP, 2), POP.replace("NOT_FOUND", "INTERNAL_SERVER_ERROR"))
M("F03", X, "    if config.population_name != self._population_name:\n      raise ValueError('FederatedDataSource and FederatedContext '\n                       'population_names must match.')\n", "")
N("F03", T, (POP, 1), "    self._check_population(request.population_name)\n", "  def remove_task(", "  def _check_population(self, name):\n    if name == self._population_name:\n      return\n    raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)\n\n  def remove_task(")
N("F03", T, (POP, 1), POP.replace("request.population_name != self._population_name", "not request.population_name == self._population_name"))

# F04 uploads
UP = "      if name not in self._uploads or self._uploads[name] is not None:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n"
M("F04", D, UP, "      if name not in self._uploads:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n")
M("F04", D, UP, "      if self._uploads.get(name) is not None:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n")
M("F04", D, UP + "      self._uploads[name] = body\n", UP + "    with self._lock:\n      self._uploads[name] = body\n")
M("F04", D, UP, UP.replace("UNAUTHORIZED", "OK"))
M("F04", D, "return self._uploads.pop(name)", "return self._uploads[name]")
M("F04", D, "    name = str(uuid.uuid4())\n", "    name = str(len(self._uploads))\n")
M("F04", D, "      self._uploads[name] = None\n", "      self._uploads[name] = b''\n")
M("F04", D, "      self._uploads[name] = body\n", "      self._uploads[name] = body[:1 << 20]\n")
M("F04", A, "    with contextlib.suppress(KeyError):\n      self._media_service.finalize_upload(client_data.resource_name)\n\n    # Notify", "    # Notify")
M("F04", A, "    if close_message:\n      with contextlib.suppress(KeyError):\n        self._media_service.finalize_upload(request.resource_name)\n", "    if close_message:\n")
M("F04", A, "      for client_data in state.active_clients.values():\n        self._media_service.finalize_upload(client_data.resource_name)\n", "")
M("F04", A, "    finally:\n      self._cleanup_session(state)\n", "    finally:\n      logging.debug('done')\n")
M("F04", A, "    self._cleanup_session(state)\n    return self._get_session_status(state)\n", "    return self._get_session_status(state)\n")
N("F04", A, "      state.authorization_tokens.clear()\n", "")
M("F04", A, "      return self._get_session_status(state), result\n", "      self._cleanup_session(state)\n      return self._get_session_status(state), result\n", "    finally:\n      self._cleanup_session(state)\n", "")
N("F04 F05", D, UP, "      if name not in self._uploads:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n      if self._uploads[name] is not None:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n")
N("F04 F05", D, UP, "      if not (name in self._uploads and self._uploads[name] is None):\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n")
N("F04 F05", D, UP + "      self._uploads[name] = body\n", "      pending = name in self._uploads and self._uploads[name] is None\n      if not pending:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n      self._uploads[name] = body\n")
N("F04 F05", D, "      return self._uploads.pop(name)", "      data = self._uploads[name]\n      del self._uploads[name]\n    return data")

# F05 locks
M("F05", D, "    with self._lock:\n      return self._uploads.pop(name)", "    return self._uploads.pop(name)")
M("F05", D, "      with self._lock:\n        return self._downloads[group][name]", "      return self._downloads[group][name]")
M("F05", D, "      with self._lock:\n        del self._downloads[group]", "      del self._downloads[group]")
M("F05", A, "      wait_data = _WaitData(num_inputs_aggregated_and_included)\n      state.pending_waits.add(wait_data)\n    return await", "      wait_data = _WaitData(num_inputs_aggregated_and_included)\n    state.pending_waits.add(wait_data)\n    return await")
M("F05", A, "      state.pending_waits.add(wait_data)\n    return await wait_data.status_future", "      state.pending_waits.add(wait_data)\n      return await wait_data.status_future")
M("F05", A, "    with self._sessions_lock:\n      return self._get_session_status(self._sessions[session_id])", "    return self._get_session_status(self._sessions[session_id])")
M("F05", A, "      return self._get_session_status(self._sessions[session_id])", "      return self.get_session_status(session_id)")
M("F05", T, "    with self._tasks_lock:\n      return (\n          self._single_assignment_tasks[0]\n          if self._single_assignment_tasks\n          else None\n      )", "    return (\n        self._single_assignment_tasks[0]\n        if self._single_assignment_tasks\n        else None\n    )")
M("F05", E, "    with self._tasks_lock:\n      del self._tasks[task_name]", "    del self._tasks[task_name]")
M("F05", A, "    # Check for any newly-satisfied pending wait operations.\n    with self._sessions_lock:\n", "    # Check for any newly-satisfied pending wait operations.\n    if True:\n")
N("F05", A, "    self._sessions_lock = threading.Lock()", "    self._sessions_lock = threading.RLock()")
N("F05 F10", T, "    with self._tasks_lock:\n      return (\n          self._single_assignment_tasks[0]\n          if self._single_assignment_tasks\n          else None\n      )", "    with self._tasks_lock:\n      if not self._single_assignment_tasks:\n        return None\n      return self._single_assignment_tasks[0]")

# F06 HTTP
M("F06", H, "data.path.fullmatch(self.path)", "data.path.match(self.path)")
M("F06", H, "          return self.send_error(e.code)\n", "          self.send_error(e.code)\n")
M("F06", H, "          return self.send_error(e.code)\n", "          return self.send_error(http.HTTPStatus.BAD_REQUEST)\n")
M("F06", H, "        return self._send_response(response)\n", "        self._send_response(response)\n")
M("F06", H, "      elif self.headers['Content-Encoding']:\n        logging.warning('Unsupported content encoding %s',\n                        self.headers['Content-Encoding'])\n        raise HttpError(http.HTTPStatus.BAD_REQUEST)\n", "")
M("F06", H, "        except (gzip.BadGzipFile, zlib.error, EOFError) as e:", "        except (gzip.BadGzipFile, EOFError) as e:")
M("F06", H, "      except message.DecodeError as e:\n        raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e", "      except message.EncodeError as e:\n        raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e")
M("F06", H, "      setattr(request, prop, unescaped)", "      setattr(request, prop, value)")
M("F06", H, "{k: urllib.parse.unquote(v) for", "{k: v for")
M("F06", H, "[^/?]*", "[^?]*")
M("F06", H, "                          re.escape(pattern))", "                          pattern)")
M("F06", H, "            'Content-Length': len(response_body),\n", "            'Content-Length': len(body),\n")
M("F06", H, "      self.end_headers()\n      self.wfile.write(response.body)", "      self.wfile.write(response.body)\n      self.end_headers()")
M("F06", H, "      self.send_error(http.HTTPStatus.NOT_FOUND)\n", "      pass\n")
M("F06", H, "          body = self._read_body() if read_body else b''\n", "          body = self._read_body() if read_body else b''\n          self.send_response(http.HTTPStatus.CONTINUE)\n")
M("F06", H, "  if alt_proto:\n    pattern_regexp += r'\\?%24alt=proto'\n", "")
M("F06", H, "        except HttpError as e:\n          logging.debug", "        except ValueError as e:\n          logging.debug")
N("F06", H, "        match = data.path.fullmatch(self.path)\n        if match is None:\n          continue\n", "        match = data.path.fullmatch(self.path)\n        if not match:\n          continue\n")
N("F06", H, "      elif self.headers['Content-Encoding']:\n", "      elif self.headers['Content-Encoding'] is not None:\n")
N("F06", H, "      body = self.rfile.read(int(self.headers['Content-Length']))\n      if self.headers['Content-Encoding'] == 'gzip':", "      length = int(self.headers['Content-Length'])\n      body = self.rfile.read(length)\n      encoding = self.headers['Content-Encoding']\n      if encoding == 'gzip':", "      elif self.headers['Content-Encoding']:\n        logging.warning('Unsupported content encoding %s',\n                        self.headers['Content-Encoding'])\n", "      elif encoding:\n        logging.warning('Unsupported content encoding %s', encoding)\n")
N("F06", H, "      body = self.rfile.read(int(self.headers['Content-Length']))\n", "      body = self.rfile.read(int(self.headers.get('Content-Length')))\n")
N("F06", H, """        try:
          body = self._read_body() if read_body else b''
          response = data.handler(match, body, fn)
        except HttpError as e:
          logging.debug('%s error: %s', self.path, e)
          return self.send_error(e.code)
        return self._send_response(response)
""", """        try:
          if read_body:
            body = self._read_body()
          else:
            body = b''
          response = data.handler(match, body, fn)
        except HttpError as e:
          logging.debug('%s error: %s', self.path, e)
          self.send_error(e.code)
          return
        self._send_response(response)
        return
""")
N("F06", H, "      try:\n        unescaped = urllib.parse.unquote(value)\n      except UnicodeError as e:\n        raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e\n      setattr(request, prop, unescaped)", "      setattr(request, prop, _unescape(value))", "def _convert_pattern(", "def _unescape(value):\n  try:\n    return urllib.parse.unquote(value)\n  except UnicodeError as e:\n    raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e\n\n\ndef _convert_pattern(")

# F07 downloads
M("F07", D, "    try:\n      yield DownloadGroup(\n          f'{self._forwarding_info().target_uri_prefix}data/{group}/', add_file)\n    finally:\n      with self._lock:\n        del self._downloads[group]", "    yield DownloadGroup(\n        f'{self._forwarding_info().target_uri_prefix}data/{group}/', add_file)\n    with self._lock:\n      del self._downloads[group]")
M("F07", D, "    finally:\n      with self._lock:\n        del self._downloads[group]", "    finally:\n      logging.debug('x')")
M("F07", D, "        if name in self._downloads[group]:\n          raise KeyError(f'{name} already exists')\n", "")
M("F07", D, "    group = str(uuid.uuid4())\n", "    group = str(len(self._downloads))\n")
M("F07", D, "    except KeyError as e:\n      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e", "    except IndexError as e:\n      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e")
M("F07", D, "'Content-Length': len(data)", "'Content-Length': len(name)")
M("F07", D, "return self._prefix + name", "return self._prefix + content_type")
N("F07 F05", D, "      with self._lock:\n        del self._downloads[group]", "      with self._lock:\n        self._downloads.pop(group)")
N("F07 F05", D, "    try:\n      with self._lock:\n        return self._downloads[group][name]\n    except KeyError as e:\n      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e", "    with self._lock:\n      if group not in self._downloads or name not in self._downloads[group]:\n        raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)\n      return self._downloads[group][name]")
N("F07 F05", D, "        if name in self._downloads[group]:\n          raise KeyError(f'{name} already exists')\n        self._downloads[group][name] =", "        files = self._downloads[group]\n        if name in files:\n          raise KeyError(f'{name} already exists')\n        files[name] =")

# F08 clean-up
M("F08", S, "      stack.callback(\n          lambda: self._aggregations_service.abort_session(session_id))\n", "")
M("F08", S, "          stack.pop_all()\n", "")
M("F08", S, "            self._eligibility_eval_tasks_service.remove_task(task_name)\n", "")
M("F08", S, "            self._task_assignments_service.remove_task(session_id)\n", "")
M("F08", S, "          finally:\n            self._task_assignments_service.remove_task(session_id)\n            self._eligibility_eval_tasks_service.remove_task(task_name)\n", "          except KeyError:\n            pass\n          self._task_assignments_service.remove_task(session_id)\n          self._eligibility_eval_tasks_service.remove_task(task_name)\n")
M("F08", S, "                num_inputs_aggregated_and_included=number_of_clients)", "                num_inputs_aggregated_and_included=1)")
M("F08", S, "            if status.status != aggregations.AggregationStatus.PENDING:\n              raise ValueError('Aggregation failed.')\n", "")
M("F08", S, "          stack.pop_all()\n          status, agg", "          status, agg", "      with plan_utils.Session(plan, server_checkpoint) as session:\n", "      with plan_utils.Session(plan, server_checkpoint) as session:\n        stack.pop_all()\n")
M("F08", P, "    self._temp_dir.cleanup()\n", "    pass\n")
N("F08 F01", S, "      stack.callback(\n          lambda: self._aggregations_service.abort_session(session_id))\n", "      stack.callback(self._aggregations_service.abort_session, session_id)\n")

# F09 waits
M("F09", A, "            completed_waits.add(data)\n", "")
M("F09", A, "          if (data.num_inputs_aggregated_and_included is not None and\n              status.num_inputs_aggregated_and_included >=\n              data.num_inputs_aggregated_and_included):", "          if (data.num_inputs_aggregated_and_included is not None and\n              status.num_inputs_aggregated_and_included >\n              data.num_inputs_aggregated_and_included):")
M("F09", A, "          if (data.num_inputs_aggregated_and_included is not None and\n              status.num_inputs_aggregated_and_included >=\n              data.num_inputs_aggregated_and_included):", "          if data.num_inputs_aggregated_and_included is not None:")
M("F09", A, ("            data.loop.call_soon_threadsafe(\n                functools.partial(data.status_future.set_result, status))\n", 0), "            data.status_future.set_result(status)\n")
M("F09", A, "          data.loop.call_soon_threadsafe(\n              functools.partial(data.status_future.set_result, status))\n        state.pending_waits.clear()", "          data.status_future.set_result(status)\n        state.pending_waits.clear()")
M("F09", A, "        state.pending_waits -= completed_waits\n", "")
M("F09", A, "        state.pending_waits.clear()\n", "")
M("F09", A, "          num_inputs_aggregated_and_included <=\n          status.num_inputs_aggregated_and_included):\n        return status\n", "          num_inputs_aggregated_and_included <=\n          status.num_inputs_aggregated_and_included):\n        return status\n    with self._sessions_lock:\n")
M("F09", A, "      if (num_inputs_aggregated_and_included is None or\n          num_inputs_aggregated_and_included <=\n", "      if (num_inputs_aggregated_and_included is None or\n          num_inputs_aggregated_and_included - 1 <=\n")
M("F09", A, "    if close_status != absl_status.StatusCode.OK.value:\n      raise http_actions.HttpError(self._get_http_status(close_status))\n", "    if close_status != absl_status.StatusCode.OK.value:\n      raise http_actions.HttpError(self._get_http_status(close_status))\n    if client_data.client_id > 3:\n      return aggregations_pb2.SubmitAggregationResultResponse()\n")
N("F09 F05", A, "            completed_waits.add(data)\n        state.pending_waits -= completed_waits\n", "            completed_waits.add(data)\n        state.pending_waits.difference_update(completed_waits)\n")
N("F09 F05", A, "            data.loop.call_soon_threadsafe(\n                functools.partial(data.status_future.set_result, status))\n            completed_waits.add(data)", "            data.loop.call_soon_threadsafe(data.status_future.set_result, status)\n            completed_waits.add(data)")
N("F09 F05", A, "      if state.pending_waits:\n        completed_waits", "      if len(state.pending_waits) > 0:\n        completed_waits")
N("F09", A, "        for data in state.pending_waits:\n          if (data.num_inputs_aggregated_and_included is not None and\n              status.num_inputs_aggregated_and_included >=\n              data.num_inputs_aggregated_and_included):\n            data.loop", "        for data in state.pending_waits:\n          wanted = data.num_inputs_aggregated_and_included\n          if wanted is None or wanted > status.num_inputs_aggregated_and_included:\n            continue\n          if True:\n            data.loop")

# F10 assignments
M("F10", T, ("              aggregation_id=task.aggregation_session_id,\n", 1), "              aggregation_id=task.task_name,\n")
M("F10", T, ("                plan=task.plan,\n", 0), "                plan=task.init_checkpoint,\n")
M("F10", T, "        if task.task_name not in request.task_names:\n          continue\n", "")
M("F10", T, "          self._single_assignment_tasks[0]\n", "          self._multiple_assignment_tasks[0]\n")
M("F10", T, "        init_checkpoint=init_checkpoint,\n        plan=plan,\n", "        init_checkpoint=plan,\n        plan=init_checkpoint,\n")
M("F10", T, ("        if task.aggregation_session_id == aggregation_session_id:\n", 1), "        if task.aggregation_session_id != aggregation_session_id:\n")
M("F10", T, "          self._multiple_assignment_tasks.remove(task)\n", "          self._single_assignment_tasks.remove(task)\n")
M("F10", T, ("              session_id=request.session_id,\n", 1), "              session_id=task.aggregation_session_id,\n")
M("F10", T, "      for task in self._multiple_assignment_tasks:\n        if task.task_name not", "      for task in self._single_assignment_tasks:\n        if task.task_name not")
M("F10", T, ("task.aggregation_session_id, num_tokens=1)[0]", 1), "task.aggregation_session_id, num_tokens=2)[0]")
M("F10", T, "        task_assignments.append(", "        if not task_assignments: task_assignments.append(")
M("F10", E, "                  task_name=task.task_name,\n", "                  task_name=str(task.task_assignment_mode),\n")
M("F10", E, "              for task in self._tasks.values()\n", "              for task in self._tasks.values() if task.task_assignment_mode == 1\n")
M("F10", E, "    if capabilities.supports_multiple_task_assignment:\n", "    if not capabilities.supports_multiple_task_assignment:\n")
M("F10", E, "      del self._tasks[task_name]", "      pass")
N("F10 F05", T, "    task = self._current_task\n    if task:\n", "    task = self._current_task\n    if task is not None:\n")
N("F10", T, ("          task.aggregation_session_id, num_tokens=1)[0]\n", 1), "          task.aggregation_session_id, 1)[0]\n")
N("F10", T, "        if task.task_name not in request.task_names:\n          continue\n", "        requested = task.task_name in request.task_names\n        if not requested:\n          continue\n")

# more behaviour-preserving edits
ROUTE = """      for data, fn in handlers[method]:
        match = data.path.fullmatch(self.path)
        if match is None:
          continue

        try:
          body = self._read_body() if read_body else b''
          response = data.handler(match, body, fn)
        except HttpError as e:
          logging.debug('%s error: %s', self.path, e)
          return self.send_error(e.code)
        return self._send_response(response)

      # If no handler matched the path, return an error.
      self.send_error(http.HTTPStatus.NOT_FOUND)
"""
N("F06", H, ROUTE, """      route = self._find_route(method)
      if route is None:
        self.send_error(http.HTTPStatus.NOT_FOUND)
        return
      data, fn, match = route
      try:
        body = self._read_body() if read_body else b''
        response = data.handler(match, body, fn)
      except HttpError as e:
        self.send_error(e.code)
      else:
        self._send_response(response)

    def _find_route(self, method):
      for data, fn in handlers[method]:
        match = data.path.fullmatch(self.path)
        if match is not None:
          return data, fn, match
      return None
""")
N("F06", H, ROUTE, """      for entry in handlers[method]:
        data, fn = entry
        match = re.fullmatch(data.path, self.path)
        if match:
          self._dispatch(data, fn, match, read_body)
          return
      self.send_error(http.HTTPStatus.NOT_FOUND)

    def _dispatch(self, data, fn, match, read_body):
      try:
        response = data.handler(match, self._read_body() if read_body else b'', fn)
      except HttpError as error:
        self.send_error(error.code)
        return
      self._send_response(response)
""")
M("F06", H, ROUTE, """      route = self._find_route(method)
      if route is None:
        return
      data, fn, match = route
      try:
        body = self._read_body() if read_body else b''
        response = data.handler(match, body, fn)
      except HttpError as e:
        self.send_error(e.code)
      else:
        self._send_response(response)

    def _find_route(self, method):
      for data, fn in handlers[method]:
        match = data.path.fullmatch(self.path)
        if match is not None:
          return data, fn, match
      return None
""")
N("F06", H, """    response_body = fn(request).SerializeToString()
    return HttpResponse(
        body=response_body,
        headers={
            'Content-Length': len(response_body),
            'Content-Type': 'application/x-protobuf'
        })
""", """    return _make_response(fn(request))
""", "def _convert_pattern(", """def _make_response(msg):
  data = msg.SerializeToString()
  headers = {}
  headers['Content-Length'] = len(data)
  headers['Content-Type'] = 'application/x-protobuf'
  return HttpResponse(body=data, headers=headers)


def _convert_pattern(""")
N("F06", H, """    request = _FACTORY.GetPrototype(desc.input_type)()
    if rule.body == '*':
      try:
        request.ParseFromString(body)
      except message.DecodeError as e:
        raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
    elif rule.body:
      setattr(request, rule.body, body)
""", """    request = parse_request(body)
""", """  def handler(match: Match[str], body: bytes,
              fn: Callable[[message.Message]""", """  def parse_request(body):
    request = _FACTORY.GetPrototype(desc.input_type)()
    if rule.body == '*':
      try:
        request.ParseFromString(body)
      except message.DecodeError as e:
        raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
    elif rule.body:
      setattr(request, rule.body, body)
    return request

  def handler(match: Match[str], body: bytes,
              fn: Callable[[message.Message]""")
N("F06", H, """  pattern_regexp = re.sub(r'\\\\\\{(.+?)\\\\\\}', r'(?P<\\1>[^/?]*)',
                          re.escape(pattern))
""", """  escaped = re.escape(pattern)
  pattern_regexp = re.sub(r'\\\\\\{(.+?)\\\\\\}', r'(?P<\\1>[^/?]*)', escaped)
""")
N("F06", H, """      try:
      args = {k""" if False else """    try:
      args = {k: urllib.parse.unquote(v) for k, v in match.groupdict().items()}
    except UnicodeError as e:
      raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
    return fn(body, **args)
""", """    args = {}
    try:
      for k, v in match.groupdict().items():
        args[k] = urllib.parse.unquote(v)
    except UnicodeError as e:
      raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
    return fn(body, **args)
""")
N("F06", H, """      self.send_response(http.HTTPStatus.OK)
      for keyword, value in response.headers.items():
        self.send_header(keyword, value)
      self.end_headers()
      self.wfile.write(response.body)
""", """      self.send_response(http.HTTPStatus.OK)
      headers = response.headers
      for keyword in headers:
        self.send_header(keyword, headers[keyword])
      self.end_headers()
      body = response.body
      self.wfile.write(body)
""")
N("F04 F05 F07", D, UP + "      self._uploads[name] = body\n", """      if not self._is_pending(name):
        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)
      self._uploads[name] = body
""", "  def register_upload(self)", """  def _is_pending(self, name):
    return name in self._uploads and self._uploads[name] is None

  def register_upload(self)""")
N("F04 F05 F07", D, UP + "      self._uploads[name] = body\n", """      self._check_pending(name)
      self._uploads[name] = body
""", "  def register_upload(self)", """  def _check_pending(self, name):
    try:
      existing = self._uploads[name]
    except KeyError as e:
      raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e
    if existing is not None:
      raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)

  def register_upload(self)""")
N("F04 F05 F07", D, """        self._downloads[group][name] = http_actions.HttpResponse(
            body=data,
            headers={
                'Content-Length': len(data),
                'Content-Type': content_type,
            })
""", """        headers = {
            'Content-Length': len(data),
            'Content-Type': content_type,
        }
        response = http_actions.HttpResponse(body=data, headers=headers)
        self._downloads[group][name] = response
""")
N("F04 F05 F07", D, """    def add_file(name: str, data: bytes, content_type: str) -> None:
      with self._lock:
        if name in self._downloads[group]:
          raise KeyError(f'{name} already exists')
        self._downloads[group][name] = http_actions.HttpResponse(
            body=data,
            headers={
                'Content-Length': len(data),
                'Content-Type': content_type,
            })

""", """    def add_file(name: str, data: bytes, content_type: str) -> None:
      self._add_file(group, name, data, content_type)

""", "  def register_upload(self)", """  def _add_file(self, group, name, data, content_type):
    response = http_actions.HttpResponse(
        body=data,
        headers={'Content-Length': len(data), 'Content-Type': content_type})
    with self._lock:
      files = self._downloads[group]
      if name in files:
        raise KeyError(f'{name} already exists')
      files[name] = response

  def register_upload(self)""")
N("F04 F05 F07", D, "    try:\n      with self._lock:\n        return self._downloads[group][name]\n    except KeyError as e:\n      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e", "    with self._lock:\n      response = self._downloads.get(group, {}).get(name)\n    if response is None:\n      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)\n    return response")
N("F04 F05 F07", D, "      with self._lock:\n        return self._downloads[group][name]\n", "      with self._lock:\n        files = self._downloads[group]\n        response = files[name]\n      return response\n")
N("F04 F05", D, ("    self._lock = threading.Lock()\n"), "    self._lock = threading.Lock()\n    self._uploads_lock = threading.Lock()\n", "    with self._lock:\n      self._uploads[name] = None", "    with self._uploads_lock:\n      self._uploads[name] = None", "    with self._lock:\n      return self._uploads.pop(name)", "    with self._uploads_lock:\n      return self._uploads.pop(name)", "    with self._lock:\n      if name not in self._uploads", "    with self._uploads_lock:\n      if name not in self._uploads") if False else None
N("F04 F05", D, "  def finalize_upload(self, name: str) -> Optional[bytes]:\n    \"\"\"Returns the data from an upload, if any.\"\"\"\n    with self._lock:\n      return self._uploads.pop(name)", "  def finalize_upload(self, name: str) -> Optional[bytes]:\n    \"\"\"Returns the data from an upload, if any.\"\"\"\n    self._lock.acquire()\n    try:\n      return self._uploads.pop(name)\n    finally:\n      self._lock.release()")

X = "fcp/demo/federated_context.py"
PU = "fcp/demo/plan_utils.py"
SV = "fcp/demo/server.py"
TR = "fcp/demo/checkpoint_tensor_reference.py"
DS = "fcp/demo/federated_data_source.py"
FC = "fcp/demo/federated_computation.py"
M("F11", X, "cache_key = (comp.wrapped_computation, id(config.example_selector))", "cache_key = comp.wrapped_computation")
M("F11", X, "cache_key = (comp.wrapped_computation, id(config.example_selector))", "cache_key = id(config.example_selector)")
M("F11", X, "          await self._resolve_value_references(x)\n          for x", "          self._resolve_value_references(x)\n          for x")
M("F11", X, "input_type, await self._resolve_value_references(input_state))", "input_type, self._resolve_value_references(input_state))") if False else None
M("F11", X, "          config.task_assignment_mode,\n          config.num_clients,", "          config.task_assignment_mode,\n          1,")
M("F11", X, "    if len(arg) != 2:\n      raise ValueError(f'The argument structure is unsupported: {arg}.')\n", "")
M("F11", X, "    if not isinstance(config, federated_data_source.DataSelectionConfig):\n      raise TypeError('arg[1] must be the result of '\n                      'FederatedDataSource.iterator().select().')\n", "")
M("F11", X, "        result_type[0],  # pytype: disable=unsupported-operands\n        name=artifact_constants.SERVER_STATE_VAR_PREFIX", "        result_type[0],  # pytype: disable=unsupported-operands\n        name=artifact_constants.SERVER_METRICS_VAR_PREFIX")
M("F11", X, "for var_name, spec in zip(var_names, tensor_specs)", "for var_name in var_names for spec in tensor_specs")
M("F11", X, "    finally:\n      tf.io.gfile.remove(tmpfile)", "    except KeyError:\n      tf.io.gfile.remove(tmpfile)")
M("F11", X, "        state_type,  # pytype: disable=wrong-arg-types\n        name=artifact_constants.SERVER_STATE_VAR_PREFIX", "        state_type,  # pytype: disable=wrong-arg-types\n        name=artifact_constants.SERVER_METRICS_VAR_PREFIX")
M("F11", TR, "      finally:\n        tf.io.gfile.remove(tmpfile)", "      except KeyError:\n        tf.io.gfile.remove(tmpfile)")
M("F11", TR, "tmpfile = f'ram://{uuid.uuid4()}.ckpt'", "tmpfile = 'ram://tensor.ckpt'")
M("F11", X, "tmpfile = f'ram://{uuid.uuid4()}.ckpt'", "tmpfile = f'ram://{state_type}.ckpt'")
M("F11", TR, "    if self._tensor is None:\n", "    if self._type_signature is None:\n")
M("F11", DS, "        self._data_source.population_name,\n        self._data_source.example_selector,\n        self._data_source.task_assignment_mode", "        self._data_source.population_name,\n        self._data_source.task_assignment_mode,\n        self._data_source.example_selector")
M("F11", DS, "    return self._task_assignment_mode", "    return _TaskAssignmentMode.TASK_ASSIGNMENT_MODE_SINGLE")
M("F11", DS, "    return self._example_selector\n", "    return self._population_name\n")
M("F11", FC, "COMPUTATION_NAME_REGEX.fullmatch(name)", "COMPUTATION_NAME_REGEX.match(name)")
M("F11", FC, "    return self._comp.type_signature", "    return self._comp.type_signature", "    return self._name\n", "    return 'computation'\n")
N("F11", X, "      _, plan = self._cached_comps[cache_key]\n    except KeyError:", "      entry = self._cached_comps[cache_key]\n      plan = entry[1]\n    except KeyError:")
N("F11", X, "    try:\n      _, plan = self._cached_comps[cache_key]\n    except KeyError:\n      plan", "    entry = self._cached_comps.get(cache_key)\n    if entry is not None:\n      plan = entry[1]\n    else:\n      plan")
N("F11", X, "    checkpoint_future = self._run_computation(comp.name, config, plan,\n                                              comp.type_signature.parameter[0],\n                                              state)", "    name = comp.name\n    checkpoint_future = self._run_computation(\n        name=name, config=config, plan=plan,\n        input_type=comp.type_signature.parameter[0], input_state=state)")
N("F11", X, "      s = [\n          await self._resolve_value_references(x)\n          for x in tff.structure.flatten(structure)\n      ]", "      s = await asyncio.gather(*[\n          self._resolve_value_references(x)\n          for x in tff.structure.flatten(structure)\n      ])")
N("F11", X, "      s = [\n          await self._resolve_value_references(x)\n          for x in tff.structure.flatten(structure)\n      ]", "      pending = [\n          self._resolve_value_references(x)\n          for x in tff.structure.flatten(structure)\n      ]\n      s = list(await asyncio.gather(*pending))")
N("F11", X, "      s = [\n          await self._resolve_value_references(x)\n          for x in tff.structure.flatten(structure)\n      ]", "      s = []\n      for x in tff.structure.flatten(structure):\n        s.append(await self._resolve_value_references(x))")
N("F11", X, "    state, config = arg\n", "    state = arg[0]\n    config = arg[1]\n")
N("F11", X, "    tensor_refs = [\n        checkpoint_tensor_reference.CheckpointTensorReference(\n            var_name, spec.dtype, spec.shape, task\n        )\n        for var_name, spec in zip(var_names, tensor_specs)\n    ]", "    tensor_refs = []\n    for var_name, spec in zip(var_names, tensor_specs):\n      tensor_refs.append(\n          checkpoint_tensor_reference.CheckpointTensorReference(\n              tensor_name=var_name, dtype=spec.dtype, shape=spec.shape,\n              checkpoint_future=task))")
N("F11", X, "    var_names = variable_helpers.variable_names_from_type(\n        result_type[0],  # pytype: disable=unsupported-operands\n        name=artifact_constants.SERVER_STATE_VAR_PREFIX,\n    ) + variable_helpers.variable_names_from_type(\n        result_type[1],  # pytype: disable=unsupported-operands\n        name=artifact_constants.SERVER_METRICS_VAR_PREFIX,\n    )", "    state_type, metrics_type = result_type\n    var_names = variable_helpers.variable_names_from_type(\n        state_type, name=artifact_constants.SERVER_STATE_VAR_PREFIX)\n    var_names += variable_helpers.variable_names_from_type(\n        metrics_type, name=artifact_constants.SERVER_METRICS_VAR_PREFIX)")
N("F11", DS, "    return DataSelectionConfig(\n        self._data_source.population_name,\n        self._data_source.example_selector,\n        self._data_source.task_assignment_mode,\n        k,\n    )", "    source = self._data_source\n    return DataSelectionConfig(\n        num_clients=k,\n        population_name=source.population_name,\n        task_assignment_mode=source.task_assignment_mode,\n        example_selector=source.example_selector,\n    )")
N("F11", FC, "    if not COMPUTATION_NAME_REGEX.fullmatch(name):", "    if COMPUTATION_NAME_REGEX.fullmatch(name) is None:")
N("F11", TR, "    if self._tensor is None:\n      checkpoint = await self._checkpoint_future\n", "    if self._tensor is None:\n      task = self._checkpoint_future\n      checkpoint = await task\n")
M("F12", PU, "    if len(plan.phase) != 1:", "    if not plan.phase:")
M("F12", PU, "            prepare_router.prepare_output_filepath_tensor_name: (\n                self._client_checkpoint_filename\n            ),\n            prepare_router.prepare_intermediate_state_output_filepath_tensor_name: (\n                self._intermediate_state_checkpoint_filename", "            prepare_router.prepare_output_filepath_tensor_name: (\n                self._intermediate_state_checkpoint_filename\n            ),\n            prepare_router.prepare_intermediate_state_output_filepath_tensor_name: (\n                self._client_checkpoint_filename")
M("F12", PU, "        self._temp_dir.name, 'intermediate_state.ckpt'", "        self._temp_dir.name, 'client_init.ckpt'")
M("F12", PU, "self._server_phase_v2.tensorflow_spec_result.target_node_names", "self._server_phase_v2.tensorflow_spec_prepare.target_node_names")
M("F12", PU, "      tf.import_graph_def(self._server_result_graph_def, name='')", "      tf.import_graph_def(self._server_prepare_graph_def, name='')")
M("F12", PU, "    if self._server_result_graph_def is None:", "    if self._server_prepare_graph_def is None:")
M("F12", PU, "      with open(updated_server_state_checkpoint_filename, 'rb')", "      with open(aggregation_result_checkpoint_filename, 'rb')")
M("F12", PU, "graph=self._plan.client_graph_bytes.value", "graph=self._plan.server_graph_prepare_bytes.value")
M("F12", PU, "        tflite_graph=self._plan.client_tflite_graph_bytes)", "        )")
M("F12", PU, "    return client_only_plan.SerializeToString()", "    return self._plan.SerializeToString()")
M("F12", PU, "      with open(self._client_checkpoint_filename, 'rb') as f", "      with open(self._intermediate_state_checkpoint_filename, 'rb') as f")
M("F12", PU, "        f.write(server_checkpoint)\n", "        f.write(b'')\n")
M("F12", PU, "          result_router.result_intermediate_state_input_filepath_tensor_name: (\n              self._intermediate_state_checkpoint_filename", "          result_router.result_intermediate_state_input_filepath_tensor_name: (\n              self._client_checkpoint_filename")
M("F12", PU, "    if self._plan.HasField('tensorflow_config_proto'):\n      client_only_plan.tensorflow_config_proto.CopyFrom(\n          self._plan.tensorflow_config_proto)\n", "")
M("F12", SV, "common_pb2.Resource(uri=checkpoint_url)", "common_pb2.Resource(uri=plan_url)")
M("F12", SV, "gzip.compress(session.client_checkpoint)", "gzip.compress(server_checkpoint)")
M("F12", SV, "gzip.compress(session.client_plan)", "gzip.compress(plan.SerializeToString())")
M("F12", SV, "gzip.compress(session.client_plan)", "session.client_plan")
M("F12", SV, "served_at_id=served_at_id, key_base10=str(i)", "served_at_id=str(i), key_base10=str(i)")
M("F12", SV, "group.prefix + _FEDERATED_SELECT_NAME_TEMPLATE", "_FEDERATED_SELECT_NAME_TEMPLATE")
M("F12", SV, "return session.finalize(aggregated_results)", "return aggregated_results")
N("F12", PU, "    client_only_plan = plan_pb2.ClientOnlyPlan(\n        phase=self._plan.phase[0].client_phase,\n        graph=self._plan.client_graph_bytes.value,\n        tflite_graph=self._plan.client_tflite_graph_bytes)\n", "    plan = self._plan\n    phase = plan.phase[0]\n    client_only_plan = plan_pb2.ClientOnlyPlan(\n        phase=phase.client_phase,\n        tflite_graph=plan.client_tflite_graph_bytes,\n        graph=plan.client_graph_bytes.value)\n")
N("F12", PU, "    client_only_plan = plan_pb2.ClientOnlyPlan(\n        phase=self._plan.phase[0].client_phase,\n        graph=self._plan.client_graph_bytes.value,\n        tflite_graph=self._plan.client_tflite_graph_bytes)\n", "    client_only_plan = plan_pb2.ClientOnlyPlan()\n    client_only_plan.phase.CopyFrom(self._plan.phase[0].client_phase)\n    client_only_plan.graph = self._plan.client_graph_bytes.value\n    client_only_plan.tflite_graph = self._plan.client_tflite_graph_bytes\n")
N("F12", PU, "    if self._server_result_graph_def is None:", "    if not self._plan.HasField('server_graph_result_bytes'):")
N("F12", PU, "    if len(plan.phase) != 1:\n      raise ValueError('plan must contain exactly 1 phase.')\n    if not plan.phase[0].HasField('server_phase_v2'):", "    phases = plan.phase\n    if len(phases) != 1:\n      raise ValueError('plan must contain exactly 1 phase.')\n    phase = phases[0]\n    if not phase.HasField('server_phase_v2'):", "plan.phase[0].server_phase_v2", "phase.server_phase_v2")
N("F12", PU, "    with open(aggregation_result_checkpoint_filename, 'wb') as f:\n      f.write(aggregation_result)\n", "    self._write(aggregation_result_checkpoint_filename, aggregation_result)\n", "  def __enter__(self)", "  def _write(self, path, data):\n    with open(path, 'wb') as f:\n      f.write(data)\n\n  def __enter__(self)", "      with open(server_state_checkpoint_filename, 'wb') as f:\n        f.write(server_checkpoint)\n", "      self._write(server_state_checkpoint_filename, server_checkpoint)\n")
N("F12", PU, "      graph = tf.Graph()\n      with graph.as_default():\n        tf.import_graph_def(self._server_prepare_graph_def, name='')\n      with tf.compat.v1.Session(graph=graph) as sess:\n        prepare_router = self._server_phase_v2.prepare_router\n        feed_dict = {\n            prepare_router.prepare_server_state_input_filepath_tensor_name: (\n                server_state_checkpoint_filename\n            ),\n            prepare_router.prepare_output_filepath_tensor_name: (\n                self._client_checkpoint_filename\n            ),\n            prepare_router.prepare_intermediate_state_output_filepath_tensor_name: (\n                self._intermediate_state_checkpoint_filename\n            ),\n        }\n        sess.run(\n            fetches=list(\n                self._server_phase_v2.tensorflow_spec_prepare.target_node_names\n            ),\n            feed_dict=feed_dict,\n        )", "      router = self._server_phase_v2.prepare_router\n      feeds = {}\n      feeds[router.prepare_server_state_input_filepath_tensor_name] = server_state_checkpoint_filename\n      feeds[router.prepare_output_filepath_tensor_name] = self._client_checkpoint_filename\n      feeds[router.prepare_intermediate_state_output_filepath_tensor_name] = self._intermediate_state_checkpoint_filename\n      self._run(self._server_prepare_graph_def, self._server_phase_v2.tensorflow_spec_prepare, feeds)", "  def __enter__(self)", "  def _run(self, graph_def, spec, feed_dict):\n    graph = tf.Graph()\n    with graph.as_default():\n      tf.import_graph_def(graph_def, name='')\n    with tf.compat.v1.Session(graph=graph) as sess:\n      sess.run(fetches=list(spec.target_node_names), feed_dict=feed_dict)\n\n  def __enter__(self)")
N("F12", SV, "          self._task_assignments_service.add_task(\n              task_name,\n              task_assignment_mode,\n              session_id,\n              common_pb2.Resource(uri=plan_url),\n              common_pb2.Resource(uri=checkpoint_url),\n              group.prefix + _FEDERATED_SELECT_NAME_TEMPLATE,\n          )", "          plan_resource = common_pb2.Resource(uri=plan_url)\n          checkpoint_resource = common_pb2.Resource(uri=checkpoint_url)\n          self._task_assignments_service.add_task(\n              task_name,\n              task_assignment_mode,\n              session_id,\n              plan=plan_resource,\n              init_checkpoint=checkpoint_resource,\n              federated_select_uri_template=f'{group.prefix}{_FEDERATED_SELECT_NAME_TEMPLATE}',\n          )")
N("F12", SV, "              gzip.compress(session.client_plan),", "              data=gzip.compress(session.client_plan),")
