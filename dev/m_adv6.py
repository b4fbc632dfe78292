from mutate import M, N
A = "fcp/demo/aggregations.py"
S = "fcp/demo/server.py"
H = "fcp/demo/http_actions.py"
D = "fcp/demo/media.py"
T = "fcp/demo/task_assignments.py"
E = "fcp/demo/eligibility_eval_tasks.py"
X = "fcp/demo/federated_context.py"
Y = "fcp/demo/federated_data_source.py"
P = "fcp/demo/plan_utils.py"
C = "fcp/demo/federated_computation.py"
R = "fcp/demo/checkpoint_tensor_reference.py"

# ---- F01
M("F01", A, "      if (state.agg_protocol.GetStatus().num_inputs_aggregated_and_included <\n          state.requirements",
  "      if (status.num_inputs_aggregated_and_included +\n          status.num_inputs_aggregated_and_pending <\n          state.requirements")
M("F01", A, "      if (state.agg_protocol.GetStatus().num_inputs_aggregated_and_included <\n          state.requirements.minimum_clients_in_server_published_aggregate):",
  "      minimum = state.requirements.minimum_clients_in_server_published_aggregate\n      if 1 < state.agg_protocol.GetStatus().num_inputs_aggregated_and_included < minimum:")
M("F01", A, "      if status.status != AggregationStatus.PENDING:\n", "      if status.status == AggregationStatus.ABORTED:\n")
M("F01", A, "      state.agg_protocol.Complete()\n      result = state.agg_protocol.GetResult()\n",
  "      result = state.agg_protocol.GetResult()\n      state.agg_protocol.Complete()\n")
M("F01", A, "    with self._sessions_lock:\n      state = self._sessions.pop(session_id)\n\n    try:",
  "    with self._sessions_lock:\n      state = self._sessions[session_id]\n    with self._sessions_lock:\n      self._sessions.pop(session_id) if state.pending_waits else None\n\n    try:")
M("F01", A, "      state.status = AggregationStatus.COMPLETED\n      return self._get_session_status(state), result\n    except",
  "      return self._get_session_status(state), result\n    except")
M("F01", A, "        state.agg_protocol.Abort()\n        raise ValueError(\n            'min", "        if state.active_clients:\n          state.agg_protocol.Abort()\n        raise ValueError(\n            'min")
M("F01", S, "        minimum_clients_in_server_published_aggregate=number_of_clients,\n", "        minimum_clients_in_server_published_aggregate=min(number_of_clients, 100),\n")
M("F01", S, "        minimum_clients_in_server_published_aggregate=number_of_clients,\n", "        minimum_clients_in_server_published_aggregate=number_of_clients - 1,\n")
M("F01", Y, "    if k is None or k <= 0:\n      raise ValueError('k must be positive.')\n", "    if k is None:\n      k = 1\n    if k < 0:\n      raise ValueError('k must be positive.')\n")
M("F01", Y, "        k,\n    )", "        max(k // 2, 1),\n    )")
M("F01", X, "          config.num_clients,\n", "          max(1, config.num_clients - 1),\n")
M("F01", A, "    except (ValueError, absl_status.StatusNotOk, queue.Empty) as e:\n      logging.warning('Failed to complete aggregation session: %s', e)\n      state.status = AggregationStatus.FAILED\n      return self._get_session_status(state), None",
  "    except (ValueError, absl_status.StatusNotOk, queue.Empty) as e:\n      logging.warning('Failed to complete aggregation session: %s', e)\n      state.status = AggregationStatus.FAILED\n      return self._get_session_status(state), state.agg_protocol.GetResult()")
N("F01", A, "      if (state.agg_protocol.GetStatus().num_inputs_aggregated_and_included <\n          state.requirements.minimum_clients_in_server_published_aggregate):",
  "      minimum = state.requirements.minimum_clients_in_server_published_aggregate\n      if not status.num_inputs_aggregated_and_included >= minimum:")
N("F01", A, "      if status.status != AggregationStatus.PENDING:\n        return self._get_session_status(state), None\n",
  "      if status.status in (AggregationStatus.ABORTED, AggregationStatus.FAILED,\n                           AggregationStatus.COMPLETED):\n        return status, None\n")
N("F01", Y, "    if k is None or k <= 0:\n      raise", "    if not k or k < 1:\n      raise")

# ---- F02
M("F02", A, "        state.authorization_tokens.remove(request.authorization_token)\n      except KeyError as e:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e\n",
  "        if request.authorization_token not in state.authorization_tokens:\n          raise KeyError(request.authorization_token)\n      except KeyError as e:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e\n      if len(state.authorization_tokens) > 1:\n        state.authorization_tokens.discard(request.authorization_token)\n")
M("F02", A, "        state.authorization_tokens.remove(request.authorization_token)\n", "        if request.authorization_token:\n          state.authorization_tokens.remove(request.authorization_token)\n")
M("F02", A, "    client_id = state.agg_protocol.AddClients(1)\n", "    client_id = state.agg_protocol.AddClients(len(state.active_clients) or 1)\n")
M("F02", A, "    client_token = str(uuid.uuid4())\n", "    client_token = request.authorization_token\n")
M("F02", A, "    client_token = str(uuid.uuid4())\n", "    client_token = str(uuid.uuid5(uuid.NAMESPACE_OID, str(client_id)))\n")
M("F02", A, "    tokens = set(str(uuid.uuid4()) for _ in range(num_tokens))\n", "    tokens = set(uuid.uuid4().hex[:4] for _ in range(num_tokens))\n")
M("F02", A, "    tokens = set(str(uuid.uuid4()) for _ in range(num_tokens))\n", "    tokens = set([str(uuid.uuid4())] * num_tokens)\n")
M("F02", A, "    if request.resource_name != client_data.resource_name:\n", "    if request.resource_name and request.resource_name != client_data.resource_name:\n")
M("F02", A, "    if request.resource_name != client_data.resource_name:\n", "    if not client_data.resource_name.startswith(request.resource_name):\n")
M("F02", A, "      self._sessions[session_id].authorization_tokens |= tokens\n", "      for state in self._sessions.values():\n        state.authorization_tokens |= tokens\n")
M("F02", A, "      self._sessions[session_id].authorization_tokens |= tokens\n", "      if not self._sessions[session_id].authorization_tokens:\n        self._sessions[session_id].authorization_tokens |= tokens\n")
N("F02", A, "      try:\n        state.authorization_tokens.remove(request.authorization_token)\n      except KeyError as e:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e\n",
  "      if request.authorization_token not in state.authorization_tokens:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n      state.authorization_tokens.discard(request.authorization_token)\n")
N("F02", A, "    tokens = set(str(uuid.uuid4()) for _ in range(num_tokens))\n", "    tokens = {str(uuid.uuid4()) for _ in range(num_tokens)}\n")
N("F02", A, "      self._sessions[session_id].authorization_tokens |= tokens\n", "      self._sessions[session_id].authorization_tokens.update(tokens)\n")

# ---- F03
M("F03", E, "    \"\"\"Handles a RequestEligibilityEvalTask request.\"\"\"\n    if request.population_name != self._population_name:\n",
  "    \"\"\"Handles a RequestEligibilityEvalTask request.\"\"\"\n    if not request.population_name.startswith(self._population_name):\n")
M("F03", T, "    \"\"\"Handles a PerformMultipleTaskAssignments request.\"\"\"\n    if request.population_name != self._population_name:\n",
  "    \"\"\"Handles a PerformMultipleTaskAssignments request.\"\"\"\n    if request.task_names and request.population_name != self._population_name:\n")
M("F03", T, "    \"\"\"Handles a StartTaskAssignment request.\"\"\"\n    if request.population_name != self._population_name:\n",
  "    \"\"\"Handles a StartTaskAssignment request.\"\"\"\n    if request.population_name.lower() != self._population_name.lower():\n")
M("F03", T, "    \"\"\"Handles a ReportTaskResult request.\"\"\"\n    if request.population_name != self._population_name:\n",
  "    \"\"\"Handles a ReportTaskResult request.\"\"\"\n    if request.population_name not in self._population_name:\n")
M("F03", Y, "    if not POPULATION_NAME_REGEX.fullmatch(population_name):", "    if not POPULATION_NAME_REGEX.match(population_name):")
M("F03", X, "    if not federated_data_source.POPULATION_NAME_REGEX.fullmatch(\n        population_name):", "    if not federated_data_source.POPULATION_NAME_REGEX.search(\n        population_name):")
M("F03", X, "    if config.population_name != self._population_name:\n", "    if self._population_name not in config.population_name:\n")
M("F03", Y, "re.compile(r'\\w+(/\\w+)*')", "re.compile(r'[\\w/]*')")
N("F03", Y, "re.compile(r'\\w+(/\\w+)*')", "re.compile(r'^\\w+(/\\w+)*$')")
N("F03", T, "    \"\"\"Handles a StartTaskAssignment request.\"\"\"\n    if request.population_name != self._population_name:\n",
  "    \"\"\"Handles a StartTaskAssignment request.\"\"\"\n    if not request.population_name == self._population_name:\n")
N("F03", Y, "re.compile(r'\\w+(/\\w+)*')", "re.compile(r'\\w+(?:/\\w+)*')")

# ---- F04
M("F04", D, "      if name not in self._uploads or self._uploads[name] is not None:\n", "      if name not in self._uploads or self._uploads[name]:\n")
M("F04", D, "      if name not in self._uploads or self._uploads[name] is not None:\n", "      if name in self._uploads and self._uploads[name] is not None:\n")
M("F04", D, "      if name not in self._uploads or self._uploads[name] is not None:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n      self._uploads[name] = body\n",
  "      if self._uploads.get(name) is not None:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n      self._uploads[name] = body\n")
M("F04", D, "      self._uploads[name] = body\n", "      self._uploads[name] = body or None\n")
M("F04", D, "      return self._uploads.pop(name)\n", "      data = self._uploads[name]\n      if data is not None:\n        del self._uploads[name]\n      return data\n")
M("F04", D, "      self._uploads[name] = body\n", "      self._uploads[name] = body.strip()\n")
M("F04", D, "    name = str(uuid.uuid4())\n    with self._lock:\n      self._uploads[name] = None\n", "    name = str(uuid.uuid4())\n    with self._lock:\n      self._uploads[name] = b''\n")
M("F04", A, "      for client_data in state.active_clients.values():\n        self._media_service.finalize_upload(client_data.resource_name)\n", "      for client_data in state.active_clients.values():\n        if state.status != AggregationStatus.COMPLETED:\n          self._media_service.finalize_upload(client_data.resource_name)\n")
M("F04", A, "    # Attempt to finalize the in-progress upload to free up resources.\n    with contextlib.suppress(KeyError):\n      self._media_service.finalize_upload(client_data.resource_name)\n",
  "    # Attempt to finalize the in-progress upload to free up resources.\n    if request.status.code != code_pb2.Code.OK:\n      with contextlib.suppress(KeyError):\n        self._media_service.finalize_upload(client_data.resource_name)\n")
M("F04", A, "      if request.aggregation_id not in self._sessions:\n        self._media_service.finalize_upload(upload_name)\n", "      if request.aggregation_id not in self._sessions:\n")
N("F04", D, "      if name not in self._uploads or self._uploads[name] is not None:\n        raise", "      if self._uploads.get(name, b'') is not None:\n        raise")
N("F04", D, "      return self._uploads.pop(name)\n", "      data = self._uploads[name]\n      del self._uploads[name]\n      return data\n")

# ---- F05
M("F05", D, "      if name not in self._uploads or self._uploads[name] is not None:\n        raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n      self._uploads[name] = body\n", "      unused = name in self._uploads and self._uploads[name] is None\n    if not unused:\n      raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED)\n    self._uploads[name] = body\n")
M("F05", T, "    with self._tasks_lock:\n      return (\n          self._single_assignment_tasks[0]\n          if self._single_assignment_tasks\n          else None\n      )\n", "    if not self._single_assignment_tasks:\n      return None\n    with self._tasks_lock:\n      return self._single_assignment_tasks[0]\n")
M("F05", E, "    with self._tasks_lock:\n      return population_eligibility", "    with self._tasks_lock:\n      tasks = self._tasks\n    if tasks is not None:\n      return population_eligibility")
M("F05", A, "  def get_session_status(self, session_id: str) -> SessionStatus:\n    \"\"\"Returns the status of an aggregation session.\"\"\"\n    with self._sessions_lock:\n      return self._get_session_status(self._sessions[session_id])\n", "  def get_session_status(self, session_id: str) -> SessionStatus:\n    \"\"\"Returns the status of an aggregation session.\"\"\"\n    return self._get_session_status(self._sessions[session_id])\n")
M("F05", A, "    return await wait_data.status_future\n", "      return await wait_data.status_future\n")
M("F05", A, "      if request.aggregation_id not in self._sessions:\n        self._media_service.finalize_upload(upload_name)\n", "      if self.get_session_status(request.aggregation_id).status != AggregationStatus.PENDING:\n        self._media_service.finalize_upload(upload_name)\n")
N("F05", E, "    with self._tasks_lock:\n      return population_eligibility", "    self._tasks_lock.acquire()\n    try:\n      return population_eligibility", E, "              for task in self._tasks.values()\n          ]\n      )\n", "              for task in self._tasks.values()\n          ]\n      )\n    finally:\n      self._tasks_lock.release()\n")
N("F05", T, "    with self._tasks_lock:\n      return (\n          self._single_assignment_tasks[0]\n          if self._single_assignment_tasks\n          else None\n      )\n", "    with self._tasks_lock:\n      if not self._single_assignment_tasks:\n        return None\n      return self._single_assignment_tasks[0]\n")

# ---- F06
M("F06", H, "data.path.fullmatch(self.path)", "data.path.match(self.path)")
M("F06", H, "data.path.fullmatch(self.path)", "data.path.fullmatch(urllib.parse.unquote(self.path))")
M("F06", H, "data.path.fullmatch(self.path)", "data.path.fullmatch(self.path.lower())")
M("F06", H, "        unescaped = urllib.parse.unquote(value)\n", "        unescaped = urllib.parse.unquote_plus(value)\n")
M("F06", H, "      setattr(request, prop, unescaped)\n", "      if not getattr(request, prop):\n        setattr(request, prop, unescaped)\n")
M("F06", H, "      setattr(request, prop, unescaped)\n", "      if unescaped:\n        setattr(request, prop, unescaped)\n")
M("F06", H, "        except (gzip.BadGzipFile, zlib.error, EOFError) as e:", "        except (gzip.BadGzipFile, EOFError) as e:")
M("F06", H, "        except (gzip.BadGzipFile, zlib.error, EOFError) as e:", "        except (OSError, zlib.error) as e:")
M("F06", H, "      elif self.headers['Content-Encoding']:\n", "      elif self.headers['Content-Encoding'] == 'deflate':\n")
M("F06", H, "          return self.send_error(e.code)\n        return", "          self.send_error(e.code)\n          continue\n        return")
M("F06", H, "          logging.debug('%s error: %s', self.path, e)\n          return self.send_error(e.code)\n", "          logging.debug('%s error: %s', self.path, e)\n          return self.send_error(http.HTTPStatus.INTERNAL_SERVER_ERROR)\n")
M("F06", H, "r'(?P<\\1>[^/?]*)'", "r'(?P<\\1>[^?]*)'")
M("F06", H, "r'(?P<\\1>[^/?]*)'", "r'(?P<\\1>\\\\w*)'")
M("F06", H, "                          re.escape(pattern))\n", "                          re.escape(pattern).replace(r'\\.', '.'))\n")
M("F06", H, "    pattern_regexp += r'\\?%24alt=proto'\n", "    pattern_regexp += r'?%24alt=proto'\n")
M("F06", H, "            'Content-Length': len(response_body),\n            'Content-Type': 'application/x-protobuf'", "            'Content-Type': 'application/x-protobuf'")
M("F06", H, "            'Content-Length': len(response_body),\n", "            'Content-Length': len(body),\n")
M("F06", H, "      self.wfile.write(response.body)\n", "      if response.body:\n        self.wfile.write(response.body)\n      else:\n        self.send_error(http.HTTPStatus.NO_CONTENT)\n")
M("F06", H, "      except message.DecodeError as e:\n        raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e\n    elif", "      except ValueError as e:\n        raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e\n    elif")
M("F06", H, "    if rule.body == '*':\n      try:\n", "    if rule.body == '*' and body:\n      try:\n") if 0 else None
M("F06", H, "          body = self._read_body() if read_body else b''\n          response = data.handler(match, body, fn)\n        except HttpError as e:", "          response = data.handler(\n              match, self._read_body() if read_body else b'', fn)\n          self._send_response(response)\n        except HttpError as e:")
M("F06", H, "        try:\n          body = self._read_body() if read_body else b''\n          response", "        body = self._read_body() if read_body else b''\n        try:\n          response")
N("F06", H, "          return self.send_error(e.code)\n        return self._send_response(response)\n", "          self.send_error(e.code)\n          return\n        self._send_response(response)\n        return\n")
N("F06", H, "        except (gzip.BadGzipFile, zlib.error, EOFError) as e:", "        except (OSError, zlib.error, EOFError) as e:")
N("F06", H, "r'(?P<\\1>[^/?]*)'", "r'(?P<\\1>[^?/]*)'")

# ---- F07
M("F07", D, "        if name in self._downloads[group]:\n          raise KeyError(f'{name} already exists')\n", "        if name in self._downloads[group] and self._downloads[group][name].body != data:\n          raise KeyError(f'{name} already exists')\n") if 0 else None
M("F07", D, "        if name in self._downloads[group]:\n          raise KeyError(f'{name} already exists')\n", "        if name in self._downloads:\n          raise KeyError(f'{name} already exists')\n")
M("F07", D, "                'Content-Length': len(data),\n", "                'Content-Length': len(data.decode('utf-8', 'ignore')),\n")
M("F07", D, "                'Content-Type': content_type,\n", "                'Content-Type': content_type.split('+')[0],\n")
M("F07", D, "    self._add_fn(name, data, content_type)\n", "    self._add_fn(name, data, 'application/octet-stream')\n")
M("F07", D, "    return self._prefix + name\n", "    return self._prefix + name.lower()\n")
M("F07", D, "        return self._downloads[group][name]\n", "        return self._downloads[group].get(name) or next(\n            iter(self._downloads[group].values()))\n")
M("F07", D, "    try:\n      yield DownloadGroup(\n          f'{self._forwarding_info().target_uri_prefix}data/{group}/', add_file)\n    finally:\n      with self._lock:\n        del self._downloads[group]\n",
  "    try:\n      yield DownloadGroup(\n          f'{self._forwarding_info().target_uri_prefix}data/{group}/', add_file)\n    except Exception:\n      with self._lock:\n        self._downloads[group].clear()\n      raise\n    else:\n      with self._lock:\n        del self._downloads[group]\n")
M("F07", D, "    try:\n      yield DownloadGroup(\n          f'{self._forwarding_info().target_uri_prefix}data/{group}/', add_file)\n    finally:\n      with self._lock:\n        del self._downloads[group]\n",
  "    yield DownloadGroup(\n        f'{self._forwarding_info().target_uri_prefix}data/{group}/', add_file)\n    with self._lock:\n      del self._downloads[group]\n")
M("F07", D, "      with self._lock:\n        return self._downloads[group][name]\n    except KeyError as e:\n      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e", "      with self._lock:\n        return self._downloads[group][name]\n    except KeyError:\n      return http_actions.HttpResponse(b'')")
M("F07", D, "            body=data,\n", "            body=data.rstrip(b'\\0'),\n")
M("F07", D, "    group = str(uuid.uuid4())\n", "    group = str(len(self._downloads))\n")
N("F07", D, "        del self._downloads[group]\n", "        self._downloads.pop(group)\n")
N("F07", D, "        return self._downloads[group][name]\n", "        files = self._downloads[group]\n        return files[name]\n")

# ---- F08
M("F08", S, "            self._task_assignments_service.remove_task(session_id)\n            self._eligibility_eval_tasks_service.remove_task(task_name)\n", "            if status.status == aggregations.AggregationStatus.PENDING:\n              self._task_assignments_service.remove_task(session_id)\n            self._eligibility_eval_tasks_service.remove_task(task_name)\n")
M("F08", S, "          try:\n            status = await", "          status = None\n          try:\n            status = await", S, "          finally:\n            self._task_assign", "          except ValueError:\n            self._task_assign")
M("F08", S, "                num_inputs_aggregated_and_included=number_of_clients)\n            if", "                num_inputs_aggregated_and_included=None)\n            if")
M("F08", S, "            if status.status != aggregations.AggregationStatus.PENDING:\n", "            if status.status == aggregations.AggregationStatus.ABORTED:\n")
M("F08", S, "            if status.status != aggregations.AggregationStatus.PENDING:\n              raise ValueError('Aggregation failed.')\n", "            if status.status != aggregations.AggregationStatus.PENDING:\n              logging.warning('Aggregation failed.')\n")
M("F08", S, "      stack.callback(\n          lambda: self._aggregations_service.abort_session(session_id))\n      with plan_utils.Session(plan, server_checkpoint) as session:\n", "      with plan_utils.Session(plan, server_checkpoint) as session:\n        stack.callback(\n            lambda: self._aggregations_service.abort_session(session_id))\n")
M("F08", S, "          stack.pop_all()\n          status, aggregated_results = (", "          callbacks = stack.pop_all()\n          callbacks.close()\n          status, aggregated_results = (")
M("F08", S, "          stack.pop_all()\n", "          if status.num_inputs_aggregated_and_pending == 0:\n            stack.pop_all()\n")
M("F08", P, "    self._temp_dir.cleanup()\n", "    if exc_type is None:\n      self._temp_dir.cleanup()\n")
M("F08", S, "      with plan_utils.Session(plan, server_checkpoint) as session:\n", "      session = plan_utils.Session(plan, server_checkpoint)\n      with contextlib.nullcontext(session):\n")
N("F08", S, "      stack.callback(\n          lambda: self._aggregations_service.abort_session(session_id))\n", "      stack.callback(self._aggregations_service.abort_session, session_id)\n")

# ---- F09
M("F09", A, "          num_inputs_aggregated_and_included <=\n          status.num_inputs_aggregated_and_included):\n        return status\n", "          num_inputs_aggregated_and_included <=\n          status.num_clients_completed):\n        return status\n")
M("F09", A, "      if (num_inputs_aggregated_and_included is None or\n", "      if (not state.active_clients or num_inputs_aggregated_and_included is None or\n")
M("F09", A, "            completed_waits.add(data)\n", "            completed_waits.add(data)\n            break\n")
M("F09", A, "        state.pending_waits -= completed_waits\n", "        state.pending_waits = completed_waits\n")
M("F09", A, "        state.pending_waits -= completed_waits\n", "        if len(completed_waits) == len(state.pending_waits):\n          state.pending_waits.clear()\n")
M("F09", A, "        state.pending_waits -= completed_waits\n", "        if completed_waits:\n          state.pending_waits.clear()\n")
M("F09", A, "              status.num_inputs_aggregated_and_included >=\n", "              status.num_inputs_aggregated_and_included ==\n") if 0 else None
M("F09", A, "              status.num_inputs_aggregated_and_included >=\n", "              status.num_inputs_aggregated_and_included >\n")
M("F09", A, "      if state.pending_waits:\n        status = self._get_session_status(state)\n        for data in state.pending_waits:\n          data.loop.call_soon_threadsafe(\n              functools.partial(data.status_future.set_result, status))\n        state.pending_waits.clear()\n",
  "      if state.pending_waits:\n        status = self._get_session_status(state)\n        for data in state.pending_waits:\n          if data.num_inputs_aggregated_and_included:\n            data.loop.call_soon_threadsafe(\n                functools.partial(data.status_future.set_result, status))\n            break\n        state.pending_waits.clear()\n")
M("F09", A, "      wait_data = _WaitData(num_inputs_aggregated_and_included)\n      state.pending_waits.add(wait_data)\n", "    wait_data = _WaitData(num_inputs_aggregated_and_included)\n    with self._sessions_lock:\n      state.pending_waits.add(wait_data)\n")
M("F09", A, "      wait_data = _WaitData(num_inputs_aggregated_and_included)\n", "      wait_data = _WaitData(\n          num_inputs_aggregated_and_included -\n          status.num_inputs_aggregated_and_included)\n")
M("F09", A, "    if close_status != absl_status.StatusCode.OK.value:\n      raise http_actions.HttpError(self._get_http_status(close_status))\n\n    # Check for any newly-satisfied pending wait operations.\n    with self._sessions_lock:\n      if state.pending_waits:\n", "    if close_status != absl_status.StatusCode.OK.value:\n      raise http_actions.HttpError(self._get_http_status(close_status))\n\n    # Check for any newly-satisfied pending wait operations.\n    with self._sessions_lock:\n      if state.pending_waits and not state.active_clients:\n")
M("F09", A, "            data.loop.call_soon_threadsafe(\n                functools.partial(data.status_future.set_result, status))\n            completed", "            data.status_future.set_result(status)\n            completed")
M("F09", A, "    self._cleanup_session(state)\n    return self._get_session_status(state)\n", "    if state.active_clients:\n      self._cleanup_session(state)\n    return self._get_session_status(state)\n")
N("F09", A, "        state.pending_waits -= completed_waits\n", "        state.pending_waits.difference_update(completed_waits)\n")
N("F09", A, "        for data in state.pending_waits:\n          if (data.num", "        for data in list(state.pending_waits):\n          if (data.num", A, "            completed_waits.add(data)\n        state.pending_waits -= completed_waits\n", "            state.pending_waits.remove(data)\n", A, "        completed_waits = set()\n", "")

# ---- F10
M("F10", T, "        if task.task_name not in request.task_names:\n          continue\n", "        if task.task_name not in request.task_names[:1]:\n          continue\n")
M("F10", T, "        if task.task_name not in request.task_names:\n          continue\n", "        if not any(n in task.task_name for n in request.task_names):\n          continue\n")
M("F10", T, "        if task.task_name not in request.task_names:\n          continue\n", "        if task.task_name not in request.task_names:\n          continue\n        if len(task_assignments) == 16:\n          break\n")
M("F10", T, "          self._single_assignment_tasks[0]\n", "          self._single_assignment_tasks[-1]\n")
M("F10", T, "        self._single_assignment_tasks.append(task)\n", "        self._single_assignment_tasks.appendleft(task)\n")
M("F10", T, "        if task.aggregation_session_id == aggregation_session_id:\n          self._single_assignment_tasks.remove(task)\n          return\n", "        if task.aggregation_session_id == aggregation_session_id:\n          self._single_assignment_tasks.popleft()\n          return\n")
M("F10", T, "      for task in self._multiple_assignment_tasks:\n        if task.aggregation_session_id == aggregation_session_id:\n          self._multiple_assignment_tasks.remove(task)\n          return\n", "      for task in self._multiple_assignment_tasks:\n        if task.aggregation_session_id == aggregation_session_id:\n          self._multiple_assignment_tasks = [\n              t for t in self._multiple_assignment_tasks\n              if t.task_name != task.task_name]\n          return\n")
M("F10", T, "    with self._tasks_lock:\n      for task in self._multiple_assignment_tasks:\n        if task.task_name not in request.task_names:\n          continue\n", "    authorization_token = None\n    with self._tasks_lock:\n      for task in self._multiple_assignment_tasks:\n        if task.task_name not in request.task_names:\n          continue\n",
  T, "        authorization_token = self._aggregations_service.pre_authorize_clients(\n            task.aggregation_session_id, num_tokens=1)[0]\n        task_assignments.append(", "        authorization_token = (\n            authorization_token or\n            self._aggregations_service.pre_authorize_clients(\n                task.aggregation_session_id, num_tokens=1)[0])\n        task_assignments.append(")
M("F10", E, "      self._tasks[task_name] = _Task(task_name, task_assignment_mode)\n", "      self._tasks.setdefault(\n          task_assignment_mode, _Task(task_name, task_assignment_mode))\n")
M("F10", E, "              for task in self._tasks.values()\n", "              for task in list(self._tasks.values())[:10]\n")
M("F10", E, "              for task in self._tasks.values()\n", "              for task in self._tasks.values()\n              if task.task_assignment_mode\n              == _TaskAssignmentMode.TASK_ASSIGNMENT_MODE_MULTIPLE\n")
M("F10", E, "      del self._tasks[task_name]\n", "      self._tasks.popitem()\n")
M("F10", E, "    if capabilities.supports_multiple_task_assignment:\n", "    if capabilities.supports_multiple_task_assignment and len(self._tasks) > 1:\n")
M("F10", T, "        init_checkpoint=init_checkpoint,\n        plan=plan,\n        federated_select", "        init_checkpoint=plan,\n        plan=plan,\n        federated_select")
M("F10", S, "              group.prefix + _FEDERATED_SELECT_NAME_TEMPLATE,\n", "              group.prefix,\n")
M("F10", S, "              common_pb2.Resource(uri=plan_url),\n              common_pb2.Resource(uri=checkpoint_url),\n", "              common_pb2.Resource(uri=checkpoint_url),\n              common_pb2.Resource(uri=plan_url),\n")
N("F10", T, "        if task.task_name not in request.task_names:\n          continue\n", "        wanted = set(request.task_names)\n        if task.task_name not in wanted:\n          continue\n")
N("F10", E, "      del self._tasks[task_name]\n", "      self._tasks.pop(task_name)\n")

# ---- F11
M("F11", X, "    cache_key = (comp.wrapped_computation, id(config.example_selector))\n", "    cache_key = (comp.name, id(config.example_selector))\n")
M("F11", X, "    cache_key = (comp.wrapped_computation, id(config.example_selector))\n", "    cache_key = (comp.wrapped_computation, type(config.example_selector))\n")
M("F11", X, "      self._cached_comps[cache_key] = (config.example_selector, plan)\n", "      self._cached_comps[cache_key] = (None, plan)\n")
M("F11", X, "    if len(arg) != 2:\n", "    if len(arg) < 2:\n")
M("F11", X, "    for item in structure:\n      if not (", "    for item in structure[:1]:\n      if not (")
M("F11", X, "        return False\n    return True\n", "        return False\n      return True\n")
M("F11", X, "    ) + variable_helpers.variable_names_from_type(\n        result_type[1],", "    ) + variable_helpers.variable_names_from_type(\n        result_type[0],")
M("F11", X, "        for var_name, spec in zip(var_names, tensor_specs)\n", "        for var_name, spec in zip(sorted(var_names), tensor_specs)\n")
M("F11", X, "          for x in tff.structure.flatten(structure)\n      ]\n      return", "          for x in reversed(tff.structure.flatten(structure))\n      ]\n      return")
M("F11", X, "    tmpfile = f'ram://{uuid.uuid4()}.ckpt'\n", "    tmpfile = f'ram://{state_type}.ckpt'\n")
M("F11", R, "      tmpfile = f'ram://{uuid.uuid4()}.ckpt'\n", "      tmpfile = f'ram://{self._tensor_name}.ckpt'\n")
M("F11", R, "    if self._tensor is None:\n", "    if self._tensor is None and self._checkpoint_future.done():\n") if 0 else None
M("F11", R, "        self._tensor = tf.raw_ops.RestoreV2(\n            prefix=tmpfile,\n            tensor_names=[self._tensor_name],\n            shape_and_slices=[''],\n            dtypes=[self._type_signature.dtype])[0]\n", "        self._tensor = tf.raw_ops.RestoreV2(\n            prefix=tmpfile,\n            tensor_names=[self._tensor_name],\n            shape_and_slices=[''],\n            dtypes=[tf.float32])[0]\n")
M("F11", R, "      finally:\n        tf.io.gfile.remove(tmpfile)\n", "      except ValueError:\n        tf.io.gfile.remove(tmpfile)\n        raise\n")
M("F11", Y, "        self._data_source.task_assignment_mode,\n        k,", "        _TaskAssignmentMode.TASK_ASSIGNMENT_MODE_SINGLE,\n        k,")
M("F11", C, "    if not COMPUTATION_NAME_REGEX.fullmatch(name):", "    if not COMPUTATION_NAME_REGEX.match(name):")
M("F11", C, "    return hash((self._comp, self._name))\n", "    return hash((self._comp, self._name))\n\n  def __eq__(self, other) -> bool:\n    return self._name == other._name\n") if 0 else None
M("F11", X, "          k: self._get_nested_data_spec(v) for k, v in example_selector.items()\n", "          k: self._get_nested_data_spec(v) for k, v in example_selector.items()\n          if not isinstance(v, dict)\n")
M("F11", X, "      return await structure.get_value()  # pytype: disable=bad-return-type  # numpy-scalars\n", "      return structure.get_value()\n")
N("F11", X, "        for var_name, spec in zip(var_names, tensor_specs)\n", "        for spec, var_name in zip(tensor_specs, var_names)\n")

# ---- F12
M("F12", P, "        phase=self._plan.phase[0].client_phase,\n", "        phase=self._plan.phase[-1].client_phase,\n") if 0 else None
M("F12", P, "    if len(plan.phase) != 1:\n", "    if len(plan.phase) < 1:\n")
M("F12", P, "        graph=self._plan.client_graph_bytes.value,\n", "        graph=(self._plan.client_graph_bytes.value or\n               self._plan.server_graph_prepare_bytes.value),\n")
M("F12", P, "    return client_only_plan.SerializeToString()\n", "    return self._plan.SerializeToString()\n")
M("F12", P, "    if self._plan.HasField('tensorflow_config_proto'):\n", "    if self._plan.client_tflite_graph_bytes and self._plan.HasField('tensorflow_config_proto'):\n")
M("F12", P, "        self._temp_dir.name, 'updated_server_state.ckpt'\n", "        self._temp_dir.name, 'server_state.ckpt'\n")
M("F12", P, "        self._temp_dir.name, 'client_init.ckpt'\n", "        self._temp_dir.name, 'server_state.ckpt'\n")
M("F12", P, "              self._server_phase_v2.tensorflow_spec_result.target_node_names\n", "              self._server_phase_v2.tensorflow_spec_prepare.target_node_names\n")
M("F12", P, "    if self._server_result_graph_def is None:\n", "    if self._server_result_graph_def is None or not aggregation_result:\n")
M("F12", P, "              self._intermediate_state_checkpoint_filename\n          ),\n          result_router.result_agg", "              self._client_checkpoint_filename\n          ),\n          result_router.result_agg")
M("F12", S, "              gzip.compress(session.client_checkpoint),\n", "              session.client_checkpoint,\n")
M("F12", S, "              gzip.compress(session.client_checkpoint),\n", "              gzip.compress(server_checkpoint),\n")
M("F12", S, "                      served_at_id=served_at_id, key_base10=str(i)\n", "                      served_at_id=served_at_id, key_base10=hex(i)\n")
M("F12", S, "            for i, slice_data in enumerate(slices):\n", "            for i, slice_data in enumerate(slices, 1):\n")
M("F12", P, "    self._temp_dir = tempfile.TemporaryDirectory()\n", "    self._temp_dir = tempfile.TemporaryDirectory()\n    if not server_checkpoint:\n      self._server_prepare_graph_def = None\n")
M("F12", P, "    if not plan.phase[0].HasField('server_phase_v2'):\n      raise", "    if plan.phase[0].HasField('server_phase') and not plan.phase[0].HasField('server_phase_v2'):\n      raise")
N("F12", P, "    if self._server_prepare_graph_def:\n", "    if self._server_prepare_graph_def is not None:\n")
