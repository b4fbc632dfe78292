from mutate import M, N
A = "fcp/demo/aggregations.py"
Y = "fcp/demo/federated_data_source.py"

N("F03", Y, "re.compile(r'\\w+(/\\w+)*')", "re.compile(r'(\\w+/)*\\w+')")

# ---- F13
M("F13", A, "[dim.size for dim in tensor_spec_proto.shape.dim]", "[dim.size for dim in tensor_spec_proto.shape.dim if dim.size > 1]")
M("F13", A, "[dim.size for dim in tensor_spec_proto.shape.dim]", "[dim.size for dim in tensor_spec_proto.shape.dim[1:]]")
M("F13", A, "[dim.size for dim in tensor_spec_proto.shape.dim]", "[dim.size for dim in reversed(tensor_spec_proto.shape.dim)]")
M("F13", A, "[dim.size for dim in tensor_spec_proto.shape.dim]", "[max(dim.size, 1) for dim in tensor_spec_proto.shape.dim]")
M("F13", A, "[dim.size for dim in tensor_spec_proto.shape.dim]", "[dim.size for dim in set(tensor_spec_proto.shape.dim)]")
M("F13", A, "      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_UINT64", "      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_INT64")
M("F13", A, "    elif dtype == tf.double:\n", "    elif dtype in (tf.double, tf.float16):\n")
M("F13", A, "    else:\n      raise AssertionError('Cases should have exhausted all possible dtypes.')\n", "    else:\n      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_INT64\n")
M("F13", A, "    else:\n      raise AssertionError('Cases should have exhausted all possible dtypes.')\n", "")
M("F13", A, "        name=tensor_spec_proto.name\n", "        name=tensor_spec_proto.name.split(':')[0]\n")
M("F13", A, "    elif intrinsic_arg.HasField('state_tensor'):\n      raise ValueError(\n          'Non-client intrinsic args are not supported in this demo.'\n      )\n",
  "    elif intrinsic_arg.HasField('state_tensor'):\n      return configuration_pb2.Configuration.IntrinsicConfig.IntrinsicArg(\n          input_tensor=self._translate_tensor_spec_proto(\n              intrinsic_arg.state_tensor))\n")
M("F13", A, "    if plan_aggregation_config.inner_aggregations:\n      raise AssertionError('Nested intrinsic structrues are not supported yet.')\n", "")
M("F13", A, "    if plan_aggregation_config.inner_aggregations:\n", "    if len(plan_aggregation_config.inner_aggregations) > 1:\n")
M("F13", A, "in plan_aggregation_config.intrinsic_args\n", "in plan_aggregation_config.intrinsic_args[:1]\n")
M("F13", A, "in plan_aggregation_config.output_tensors\n", "in plan_aggregation_config.output_tensors\n            if output_tensor.name\n")
M("F13", A, "in plan_aggregation_config.output_tensors\n", "in sorted(plan_aggregation_config.output_tensors, key=lambda t: t.name)\n")
M("F13", A, "        intrinsic_uri=plan_aggregation_config.intrinsic_uri,\n", "        intrinsic_uri=plan_aggregation_config.intrinsic_uri.lower(),\n")
M("F13", A, "    if (len(aggregation_requirements.plan.phase) != 1 or\n", "    if (len(aggregation_requirements.plan.phase) < 1 or\n")
M("F13", A, "        not aggregation_requirements.plan.phase[0].HasField('server_phase_v2')):", "        not aggregation_requirements.plan.phase[0].HasField('server_phase')):")
M("F13", A, "    agg_protocol.Start(0)\n\n", "\n")
M("F13", A, "                ].server_phase_v2.aggregations\n", "                ].server_phase_v2.aggregations\n                if aggregation_config.intrinsic_args\n")
M("F13", A, "    session_id = str(uuid.uuid4())\n    if (len", "    session_id = str(len(self._sessions))\n    if (len")
M("F13", A, "        num_clients_failed=status.num_clients_failed,\n", "        num_clients_failed=status.num_clients_aborted,\n")
M("F13", A, "        num_clients_pending=status.num_clients_pending,\n", "        num_clients_pending=len(state.active_clients),\n")
M("F13", A, "        num_clients_pending=status.num_clients_pending,\n", "")
M("F13", A, "        status=state.status,\n", "        status=AggregationStatus.PENDING,\n")

N("F13", A, "[dim.size for dim in tensor_spec_proto.shape.dim]", "list(d.size for d in tensor_spec_proto.shape.dim)")
N("F13", A, "    transformed_tensor.shape.dim_sizes.extend(\n        [dim.size for dim in tensor_spec_proto.shape.dim]\n    )\n", "    for dim in tensor_spec_proto.shape.dim:\n      transformed_tensor.shape.dim_sizes.append(dim.size)\n")
N("F13", A, "    if plan_aggregation_config.inner_aggregations:\n", "    if len(plan_aggregation_config.inner_aggregations) > 0:\n")
N("F13", A, "    if plan_aggregation_config.inner_aggregations:\n", "    if len(plan_aggregation_config.inner_aggregations) != 0:\n")
N("F13", A, """    if dtype == tf.float32:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_FLOAT
    elif dtype == tf.double:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_DOUBLE
    elif dtype == tf.string:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_STRING
    elif dtype == tf.int32:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_INT32
    elif dtype == tf.int64:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_INT64
    elif dtype == tf.uint64:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_UINT64
    else:
      raise AssertionError('Cases should have exhausted all possible dtypes.')
""", """    dtypes = {
        tf.float32: aggregation_tensor_pb2.DataType.DT_FLOAT,
        tf.double: aggregation_tensor_pb2.DataType.DT_DOUBLE,
        tf.string: aggregation_tensor_pb2.DataType.DT_STRING,
        tf.int32: aggregation_tensor_pb2.DataType.DT_INT32,
        tf.int64: aggregation_tensor_pb2.DataType.DT_INT64,
        tf.uint64: aggregation_tensor_pb2.DataType.DT_UINT64,
    }
    if dtype not in dtypes:
      raise AssertionError('Cases should have exhausted all possible dtypes.')
    transformed_tensor.dtype = dtypes[dtype]
""")
M("F13", A, """    if dtype == tf.float32:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_FLOAT
    elif dtype == tf.double:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_DOUBLE
    elif dtype == tf.string:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_STRING
    elif dtype == tf.int32:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_INT32
    elif dtype == tf.int64:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_INT64
    elif dtype == tf.uint64:
      transformed_tensor.dtype = aggregation_tensor_pb2.DataType.DT_UINT64
    else:
      raise AssertionError('Cases should have exhausted all possible dtypes.')
""", """    dtypes = {
        tf.float32: aggregation_tensor_pb2.DataType.DT_FLOAT,
        tf.double: aggregation_tensor_pb2.DataType.DT_DOUBLE,
        tf.string: aggregation_tensor_pb2.DataType.DT_STRING,
        tf.int32: aggregation_tensor_pb2.DataType.DT_INT32,
        tf.int64: aggregation_tensor_pb2.DataType.DT_INT64,
        tf.uint64: aggregation_tensor_pb2.DataType.DT_UINT64,
    }
    transformed_tensor.dtype = dtypes.get(
        dtype, aggregation_tensor_pb2.DataType.DT_FLOAT)
""")
N("F13", A, "    if (len(aggregation_requirements.plan.phase) != 1 or\n        not aggregation_requirements.plan.phase[0].HasField('server_phase_v2')):\n      raise ValueError('Plan must contain exactly one server_phase_v2.')\n",
  "    phases = aggregation_requirements.plan.phase\n    if len(phases) != 1:\n      raise ValueError('Plan must contain exactly one phase.')\n    (phase,) = phases\n    if not phases[0].HasField('server_phase_v2'):\n      raise ValueError('Plan must contain exactly one server_phase_v2.')\n")
N("F13", A, """    return configuration_pb2.Configuration.IntrinsicConfig(
        intrinsic_uri=plan_aggregation_config.intrinsic_uri,
        intrinsic_args=[
            self._translate_intrinsic_arg(intrinsic_arg)
            for intrinsic_arg in plan_aggregation_config.intrinsic_args
        ],
""", """    args = [
        self._translate_intrinsic_arg(intrinsic_arg)
        for intrinsic_arg in plan_aggregation_config.intrinsic_args
    ]
    return configuration_pb2.Configuration.IntrinsicConfig(
        intrinsic_uri=plan_aggregation_config.intrinsic_uri,
        intrinsic_args=args,
""")
N("F13", A, "        intrinsic_args=[\n            self._translate_intrinsic_arg(intrinsic_arg)\n            for intrinsic_arg in plan_aggregation_config.intrinsic_args\n        ],\n",
  "        intrinsic_args=list(\n            map(self._translate_intrinsic_arg,\n                plan_aggregation_config.intrinsic_args)),\n")
N("F13", A, "    if intrinsic_arg.HasField('input_tensor'):\n      return", "    if intrinsic_arg.WhichOneof('arg') == 'input_tensor':\n      return")
N("F13", A, "    agg_protocol.Start(0)\n\n    with self._sessions_lock:\n      self._sessions[session_id] = _AggregationSessionState(\n          requirements=aggregation_requirements,\n          agg_protocol=agg_protocol)\n    return session_id\n",
  "    agg_protocol.Start(0)\n    state = _AggregationSessionState(aggregation_requirements, agg_protocol)\n    with self._sessions_lock:\n      self._sessions[session_id] = state\n    return session_id\n")
