"""The published protocol: what the wire format, the message kinds and the
error classes are.  Written down once and reviewed against the documentation
(README, docstrings); the checks compare the current source with it."""

KINDS = {0: 'message.base:Hello',
 1: 'message.base:RandVal',
 2: 'message.base:Disconnect',
 3: 'message.base:ChallengeSolution',
 1001: 'message.p2p:Ping',
 1002: 'message.p2p:Pong',
 1003: 'message.p2p:GetPeers',
 1004: 'message.p2p:Peers',
 1005: 'message.p2p:GetTasks',
 1006: 'message.p2p:Tasks',
 1007: 'message.p2p:RemoveTask',
 1008: 'message.p2p:GetResourcePeers',
 1009: 'message.p2p:ResourcePeers',
 1010: 'message.p2p:Degree',
 1011: 'message.p2p:Gossip',
 1012: 'message.p2p:StopGossip',
 1013: 'message.p2p:LocRank',
 1014: 'message.p2p:FindNode',
 1015: 'message.p2p:WantToStartTaskSession',
 1016: 'message.p2p:SetTaskSession',
 1017: 'message.p2p:RemoveTaskContainer',
 2001: 'message.tasks:WantToComputeTask',
 2002: 'message.tasks:TaskToCompute',
 2003: 'message.tasks:CannotAssignTask',
 2004: 'message.tasks:ReportComputedTask',
 2010: 'message.tasks:SubtaskResultsAccepted',
 2011: 'message.tasks:SubtaskResultsRejected',
 2015: 'message.tasks:TaskFailure',
 2016: 'message.tasks:StartSessionResponse',
 2026: 'message.tasks:CannotComputeTask',
 2027: 'message.tasks:SubtaskPayment',
 2028: 'message.tasks:SubtaskPaymentRequest',
 2029: 'message.tasks:AckReportComputedTask',
 2030: 'message.tasks:RejectReportComputedTask',
 3001: 'message.resources:PushResource',
 3002: 'message.resources:HasResource',
 3003: 'message.resources:WantsResource',
 3004: 'message.resources:PullResource',
 3005: 'message.resources:PullAnswer',
 3008: 'message.resources:ResourceHandshakeStart',
 3009: 'message.resources:ResourceHandshakeNonce',
 3010: 'message.resources:ResourceHandshakeVerdict',
 4000: 'message.concents:ServiceRefused',
 4001: 'message.concents:ForceReportComputedTask',
 4004: 'message.concents:VerdictReportComputedTask',
 4005: 'message.concents:FileTransferToken',
 4006: 'message.concents:SubtaskResultsVerify',
 4007: 'message.concents:AckSubtaskResultsVerify',
 4008: 'message.concents:SubtaskResultsSettled',
 4009: 'message.concents:ForceGetTaskResult',
 4010: 'message.concents:AckForceGetTaskResult',
 4011: 'message.concents:ForceGetTaskResultFailed',
 4012: 'message.concents:ForceGetTaskResultRejected',
 4013: 'message.concents:ForceGetTaskResultUpload',
 4014: 'message.concents:ForceGetTaskResultDownload',
 4015: 'message.concents:ForceSubtaskResults',
 4016: 'message.concents:ForceSubtaskResultsResponse',
 4017: 'message.concents:ForceSubtaskResultsRejected',
 4018: 'message.concents:ForcePayment',
 4019: 'message.concents:ForcePaymentCommitted',
 4020: 'message.concents:ForcePaymentRejected',
 4021: 'message.concents:ForceReportComputedTaskResponse',
 4022: 'message.concents:ClientAuthorization'}

FIELDS = {'message.base:Hello': ['rand_val',
                        'proto_id',
                        'node_info',
                        'port',
                        'client_ver',
                        'solve_challenge',
                        'challenge',
                        'difficulty',
                        'metadata'],
 'message.base:RandVal': ['rand_val'],
 'message.base:Disconnect': ['reason'],
 'message.base:ChallengeSolution': ['solution'],
 'message.p2p:Ping': [],
 'message.p2p:Pong': [],
 'message.p2p:GetPeers': [],
 'message.p2p:Peers': ['peers'],
 'message.p2p:GetTasks': [],
 'message.p2p:Tasks': ['tasks'],
 'message.p2p:RemoveTask': ['task_id'],
 'message.p2p:GetResourcePeers': [],
 'message.p2p:ResourcePeers': ['resource_peers'],
 'message.p2p:Degree': ['degree'],
 'message.p2p:Gossip': ['gossip'],
 'message.p2p:StopGossip': [],
 'message.p2p:LocRank': ['node_id', 'loc_rank'],
 'message.p2p:FindNode': ['node_key_id'],
 'message.p2p:WantToStartTaskSession': ['node_info',
                                        'conn_id',
                                        'super_node_info'],
 'message.p2p:SetTaskSession': ['key_id',
                                'node_info',
                                'conn_id',
                                'super_node_info'],
 'message.p2p:RemoveTaskContainer': ['remove_tasks'],
 'message.tasks:WantToComputeTask': ['perf_index',
                                     'cpu_usage',
                                     'max_resource_size',
                                     'max_memory_size',
                                     'price',
                                     'num_subtasks',
                                     'concent_enabled',
                                     'extra_data',
                                     'provider_public_key',
                                     'provider_ethereum_address',
                                     'task_header'],
 'message.tasks:TaskToCompute': ['requestor_id',
                                 'requestor_public_key',
                                 'requestor_ethereum_public_key',
                                 'provider_id',
                                 'compute_task_def',
                                 'want_to_compute_task',
                                 'package_hash',
                                 'size',
                                 'concent_enabled',
                                 'price',
                                 'resources_options',
                                 'ethsig',
                                 'promissory_note_sig',
                                 'concent_promissory_note_sig'],
 'message.tasks:CannotAssignTask': ['task_id', 'reason'],
 'message.tasks:ReportComputedTask': ['address',
                                      'node_info',
                                      'port',
                                      'key_id',
                                      'extra_data',
                                      'task_to_compute',
                                      'size',
                                      'package_hash',
                                      'multihash',
                                      'secret',
                                      'options',
                                      'stats'],
 'message.tasks:SubtaskResultsAccepted': ['payment_ts',
                                          'report_computed_task'],
 'message.tasks:SubtaskResultsRejected': ['report_computed_task',
                                          'force_get_task_result_failed',
                                          'reason'],
 'message.tasks:TaskFailure': ['task_to_compute', 'err', 'reason'],
 'message.tasks:StartSessionResponse': ['conn_id'],
 'message.tasks:CannotComputeTask': ['task_to_compute', 'reason'],
 'message.tasks:SubtaskPayment': ['subtask_id',
                                  'reward',
                                  'transaction_id',
                                  'block_number'],
 'message.tasks:SubtaskPaymentRequest': ['subtask_id'],
 'message.tasks:AckReportComputedTask': ['report_computed_task'],
 'message.tasks:RejectReportComputedTask': ['attached_task_to_compute',
                                            'task_failure',
                                            'cannot_compute_task',
                                            'reason'],
 'message.resources:PushResource': ['copies', 'resource'],
 'message.resources:HasResource': ['resource'],
 'message.resources:WantsResource': ['resource'],
 'message.resources:PullResource': ['resource'],
 'message.resources:PullAnswer': ['resource', 'has_resource'],
 'message.resources:ResourceHandshakeStart': ['resource', 'options'],
 'message.resources:ResourceHandshakeNonce': ['nonce'],
 'message.resources:ResourceHandshakeVerdict': ['accepted', 'nonce'],
 'message.concents:ServiceRefused': ['task_to_compute', 'reason'],
 'message.concents:ForceReportComputedTask': ['report_computed_task',
                                              'result_hash'],
 'message.concents:VerdictReportComputedTask': ['force_report_computed_task',
                                                'ack_report_computed_task'],
 'message.concents:FileTransferToken': ['subtask_id',
                                        'token_expiration_deadline',
                                        'storage_cluster_address',
                                        'authorized_client_public_key',
                                        'operation',
                                        'files'],
 'message.concents:SubtaskResultsVerify': ['subtask_results_rejected',
                                           'concent_promissory_note_sig'],
 'message.concents:AckSubtaskResultsVerify': ['subtask_results_verify',
                                              'file_transfer_token'],
 'message.concents:SubtaskResultsSettled': ['origin', 'task_to_compute'],
 'message.concents:ForceGetTaskResult': ['report_computed_task'],
 'message.concents:AckForceGetTaskResult': ['force_get_task_result'],
 'message.concents:ForceGetTaskResultFailed': ['task_to_compute'],
 'message.concents:ForceGetTaskResultRejected': ['force_get_task_result',
                                                 'reason'],
 'message.concents:ForceGetTaskResultUpload': ['force_get_task_result',
                                               'file_transfer_token'],
 'message.concents:ForceGetTaskResultDownload': ['force_get_task_result',
                                                 'file_transfer_token'],
 'message.concents:ForceSubtaskResults': ['ack_report_computed_task'],
 'message.concents:ForceSubtaskResultsResponse': ['subtask_results_accepted',
                                                  'subtask_results_rejected'],
 'message.concents:ForceSubtaskResultsRejected': ['force_subtask_results',
                                                  'reason'],
 'message.concents:ForcePayment': ['subtask_results_accepted_list'],
 'message.concents:ForcePaymentCommitted': ['payment_ts',
                                            'task_owner_key',
                                            'provider_eth_account',
                                            'amount_paid',
                                            'recipient_type',
                                            'amount_pending'],
 'message.concents:ForcePaymentRejected': ['force_payment', 'reason'],
 'message.concents:ForceReportComputedTaskResponse': ['reason',
                                                      'ack_report_computed_task',
                                                      'reject_report_computed_task'],
 'message.concents:ClientAuthorization': ['client_public_key']}

ENUMS = {'datastructures.tasks:TaskHeader.MARKET_TYPE': {'Brass': 'Brass',
                                                 'Usage': 'Usage'},
 'message.base:Disconnect.REASON': {'DuplicatePeers': 'duplicate_peers',
                                    'TooManyPeers': 'too_many_peers',
                                    'Refresh': 'refresh',
                                    'Unverified': 'unverified',
                                    'ProtocolVersion': 'protocol_version',
                                    'BadProtocol': 'bad_protocol',
                                    'Timeout': 'timeout',
                                    'NoMoreMessages': 'no_more_messages',
                                    'WrongEncryption': 'wrong_encryption',
                                    'ResourceHandshakeFailure': 'resource_handshake',
                                    'KeyNotDifficult': 'key_not_difficult',
                                    'Bootstrap': 'bootstrap'},
 'message.concents:FileTransferToken.FileInfo.Category': {'results': 'results',
                                                          'resources': 'resources'},
 'message.concents:FileTransferToken.Operation': {'upload': 'upload',
                                                  'download': 'download'},
 'message.concents:ForceGetTaskResultRejected.REASON': {'AcceptanceTimeLimitExceeded': 'acceptance_time_limit_exceeded'},
 'message.concents:ForcePaymentCommitted.Actor': {'Requestor': 'requestor',
                                                  'Provider': 'provider'},
 'message.concents:ForcePaymentRejected.REASON': {'NoUnsettledTasksFound': 'no '
                                                                           'unsettled '
                                                                           'tasks '
                                                                           'found',
                                                  'TimestampError': 'timestamp '
                                                                    'error - '
                                                                    'subtasks '
                                                                    'are not '
                                                                    'overdue '
                                                                    'yet'},
 'message.concents:ForceReportComputedTaskResponse.REASON': {'AckFromRequestor': 'ack_from_requestor',
                                                             'RejectFromRequestor': 'reject_from_requestor',
                                                             'SubtaskTimeout': 'subtask_timeout',
                                                             'ConcentAck': 'concent_ack'},
 'message.concents:ForceSubtaskResultsRejected.REASON': {'RequestPremature': 'premature: '
                                                                             'still '
                                                                             'within '
                                                                             'the '
                                                                             'verification '
                                                                             'timeout',
                                                         'RequestTooLate': 'too '
                                                                           'late: '
                                                                           'past '
                                                                           'the '
                                                                           'forced '
                                                                           'communication '
                                                                           'timeout'},
 'message.concents:ServiceRefused.REASON': {'TooSmallCommunicationPayment': 'TOO_SMALL_COMMUNICATION_PAYMENT',
                                            'TooSmallRequestorDeposit': 'TOO_SMALL_REQUESTOR_DEPOSIT',
                                            'TooSmallProviderDeposit': 'TOO_SMALL_PROVIDER_DEPOSIT',
                                            'SystemOverloaded': 'SYSTEM_OVERLOADED',
                                            'DuplicateRequest': 'DUPLICATE_REQUEST',
                                            'InvalidRequest': 'REQUEST_FORMAT_OR_CONTENT_INVALID',
                                            'ConcentDisabled': 'CONCENT_SERVICE_IS_NOT_ENABLED_FOR_THIS_SUBTASK',
                                            'UnsupportedProtocolVersion': 'UNSUPPORTED_PROTOCOL_VERSION',
                                            'PriceNotPositive': 'PRICE_NOT_POSITIVE'},
 'message.concents:SubtaskResultsSettled.Origin': {'ResultsAcceptedTimeout': 'results_accepted_timeout',
                                                   'ResultsRejected': 'results_rejected'},
 'message.tasks:CannotAssignTask.REASON': {'NotMyTask': 'NotMyTask',
                                           'NoMoreSubtasks': 'NoMoreSubtasks',
                                           'TaskFinished': 'TaskFinished',
                                           'ConcentDisabled': 'ConcentDisabled'},
 'message.tasks:CannotComputeTask.REASON': {'CannotTakeWork': 'CannotTakeWork',
                                            'WrongCTD': 'WrongCTD',
                                            'WrongKey': 'WrongKey',
                                            'WrongAddress': 'WrongAddress',
                                            'WrongEnvironment': 'WrongEnvironment',
                                            'NoSourceCode': 'NoSourceCode',
                                            'WrongDockerImages': 'WrongDockerImages',
                                            'ConcentRequired': 'ConcentRequired',
                                            'ConcentDisabled': 'ConcentDisabled',
                                            'InsufficientBalance': 'InsufficientBalance',
                                            'InsufficientDeposit': 'InsufficientDeposit',
                                            'TooShortDeposit': 'TooShortDeposit',
                                            'PromissoryNoteMissing': 'PromissoryNoteMissing',
                                            'OfferCancelled': 'OfferCancelled',
                                            'ResourcesTooBig': 'ResourcesTooBig'},
 'message.tasks:RejectReportComputedTask.REASON': {'SubtaskTimeLimitExceeded': 'SubtaskTimeLimitExceeded',
                                                   'GotMessageCannotComputeTask': 'GotMessageCannotComputeTask',
                                                   'GotMessageTaskFailure': 'GotMessageTaskFailure'},
 'message.tasks:SubtaskResultsRejected.REASON': {'VerificationNegative': 'Results '
                                                                         'verification '
                                                                         'negative',
                                                 'ConcentResourcesFailure': 'Concent '
                                                                            'could '
                                                                            'not '
                                                                            'retrieve '
                                                                            'resources '
                                                                            'to '
                                                                            'verify',
                                                 'ConcentVerificationNegative': 'Concent '
                                                                                'results '
                                                                                'verification '
                                                                                'negative',
                                                 'ForcedResourcesFailure': 'Concent '
                                                                           'reported '
                                                                           'failure '
                                                                           'to '
                                                                           'retrieve '
                                                                           'the '
                                                                           'resources '
                                                                           'to '
                                                                           'verify',
                                                 'ResourcesFailure': 'Could '
                                                                     'not '
                                                                     'retrieve '
                                                                     'resources'},
 'message.tasks:TaskFailure.REASON': {'ComputationError': 'ComputationError',
                                      'BudgetExceeded': 'BudgetExceeded',
                                      'TimeExceeded': 'TimeExceeded'},
 'message.tasks:TaskMessage.OWNER_CHOICES': {'provider': 'provider',
                                             'requestor': 'requestor',
                                             'concent': 'concent'}}

ENUM_FIELDS = {'message.base:Disconnect': {'reason': 'message.base:Disconnect.REASON'},
 'message.tasks:CannotAssignTask': {'reason': 'message.tasks:CannotAssignTask.REASON'},
 'message.tasks:SubtaskResultsRejected': {'reason': 'message.tasks:SubtaskResultsRejected.REASON'},
 'message.tasks:TaskFailure': {'reason': 'message.tasks:TaskFailure.REASON'},
 'message.tasks:CannotComputeTask': {'reason': 'message.tasks:CannotComputeTask.REASON'},
 'message.tasks:RejectReportComputedTask': {'reason': 'message.tasks:RejectReportComputedTask.REASON'},
 'message.concents:ServiceRefused': {'reason': 'message.concents:ServiceRefused.REASON'},
 'message.concents:FileTransferToken': {'operation': 'message.concents:FileTransferToken.Operation'},
 'message.concents:SubtaskResultsSettled': {'origin': 'message.concents:SubtaskResultsSettled.Origin'},
 'message.concents:ForceGetTaskResultRejected': {'reason': 'message.concents:ForceGetTaskResultRejected.REASON'},
 'message.concents:ForceSubtaskResultsRejected': {'reason': 'message.concents:ForceSubtaskResultsRejected.REASON'},
 'message.concents:ForcePaymentCommitted': {'recipient_type': 'message.concents:ForcePaymentCommitted.Actor'},
 'message.concents:ForcePaymentRejected': {'reason': 'message.concents:ForcePaymentRejected.REASON'},
 'message.concents:ForceReportComputedTaskResponse': {'reason': 'message.concents:ForceReportComputedTaskResponse.REASON'}}

NESTED_FIELDS = {'message.p2p:RemoveTaskContainer': {'remove_tasks': ('message.p2p:RemoveTask',
                                                      False,
                                                      True)},
 'message.tasks:TaskToCompute': {'want_to_compute_task': ('message.tasks:WantToComputeTask',
                                                          False,
                                                          False)},
 'message.tasks:ReportComputedTask': {'task_to_compute': ('message.tasks:TaskToCompute',
                                                          False,
                                                          False)},
 'message.tasks:SubtaskResultsAccepted': {'report_computed_task': ('message.tasks:ReportComputedTask',
                                                                   False,
                                                                   False)},
 'message.tasks:SubtaskResultsRejected': {'report_computed_task': ('message.tasks:ReportComputedTask',
                                                                   False,
                                                                   False),
                                          'force_get_task_result_failed': ('message.concents:ForceGetTaskResultFailed',
                                                                           True,
                                                                           False)},
 'message.tasks:TaskFailure': {'task_to_compute': ('message.tasks:TaskToCompute',
                                                   False,
                                                   False)},
 'message.tasks:CannotComputeTask': {'task_to_compute': ('message.tasks:TaskToCompute',
                                                         False,
                                                         False)},
 'message.tasks:AckReportComputedTask': {'report_computed_task': ('message.tasks:ReportComputedTask',
                                                                  False,
                                                                  False)},
 'message.tasks:RejectReportComputedTask': {'attached_task_to_compute': ('message.tasks:TaskToCompute',
                                                                         True,
                                                                         False),
                                            'task_failure': ('message.tasks:TaskFailure',
                                                             True,
                                                             False),
                                            'cannot_compute_task': ('message.tasks:CannotComputeTask',
                                                                    True,
                                                                    False)},
 'message.concents:ServiceRefused': {'task_to_compute': ('message.tasks:TaskToCompute',
                                                         True,
                                                         False)},
 'message.concents:ForceReportComputedTask': {'report_computed_task': ('message.tasks:ReportComputedTask',
                                                                       False,
                                                                       False)},
 'message.concents:VerdictReportComputedTask': {'force_report_computed_task': ('message.concents:ForceReportComputedTask',
                                                                               False,
                                                                               False),
                                                'ack_report_computed_task': ('message.tasks:AckReportComputedTask',
                                                                             False,
                                                                             False)},
 'message.concents:SubtaskResultsVerify': {'subtask_results_rejected': ('message.tasks:SubtaskResultsRejected',
                                                                        False,
                                                                        False)},
 'message.concents:AckSubtaskResultsVerify': {'subtask_results_verify': ('message.concents:SubtaskResultsVerify',
                                                                         False,
                                                                         False),
                                              'file_transfer_token': ('message.concents:FileTransferToken',
                                                                      False,
                                                                      False)},
 'message.concents:SubtaskResultsSettled': {'task_to_compute': ('message.tasks:TaskToCompute',
                                                                False,
                                                                False)},
 'message.concents:ForceGetTaskResult': {'report_computed_task': ('message.tasks:ReportComputedTask',
                                                                  False,
                                                                  False)},
 'message.concents:AckForceGetTaskResult': {'force_get_task_result': ('message.concents:ForceGetTaskResult',
                                                                      False,
                                                                      False)},
 'message.concents:ForceGetTaskResultFailed': {'task_to_compute': ('message.tasks:TaskToCompute',
                                                                   False,
                                                                   False)},
 'message.concents:ForceGetTaskResultRejected': {'force_get_task_result': ('message.concents:ForceGetTaskResult',
                                                                           False,
                                                                           False)},
 'message.concents:ForceGetTaskResultUpload': {'force_get_task_result': ('message.concents:ForceGetTaskResult',
                                                                         False,
                                                                         False),
                                               'file_transfer_token': ('message.concents:FileTransferToken',
                                                                       False,
                                                                       False)},
 'message.concents:ForceGetTaskResultDownload': {'force_get_task_result': ('message.concents:ForceGetTaskResult',
                                                                           False,
                                                                           False),
                                                 'file_transfer_token': ('message.concents:FileTransferToken',
                                                                         False,
                                                                         False)},
 'message.concents:ForceSubtaskResults': {'ack_report_computed_task': ('message.tasks:AckReportComputedTask',
                                                                       False,
                                                                       False)},
 'message.concents:ForceSubtaskResultsResponse': {'subtask_results_accepted': ('message.tasks:SubtaskResultsAccepted',
                                                                               True,
                                                                               False),
                                                  'subtask_results_rejected': ('message.tasks:SubtaskResultsRejected',
                                                                               True,
                                                                               False)},
 'message.concents:ForceSubtaskResultsRejected': {'force_subtask_results': ('message.concents:ForceSubtaskResults',
                                                                            False,
                                                                            False)},
 'message.concents:ForcePayment': {'subtask_results_accepted_list': ('message.tasks:SubtaskResultsAccepted',
                                                                     False,
                                                                     True)},
 'message.concents:ForcePaymentRejected': {'force_payment': ('message.concents:ForcePayment',
                                                             False,
                                                             False)},
 'message.concents:ForceReportComputedTaskResponse': {'ack_report_computed_task': ('message.tasks:AckReportComputedTask',
                                                                                   True,
                                                                                   False),
                                                      'reject_report_computed_task': ('message.tasks:RejectReportComputedTask',
                                                                                      True,
                                                                                      False)}}

POLICY_EXCEPTIONS = {'message.base:Hello': (False, True),
 'message.base:Disconnect': (False, True),
 'message.p2p:Ping': (True, False),
 'message.p2p:Pong': (True, False),
 'message.p2p:GetPeers': (True, False),
 'message.p2p:Peers': (True, False),
 'message.p2p:GetTasks': (True, False),
 'message.p2p:GetResourcePeers': (True, False),
 'message.p2p:ResourcePeers': (True, False),
 'message.p2p:Degree': (True, False),
 'message.p2p:Gossip': (True, False),
 'message.p2p:StopGossip': (True, False),
 'message.p2p:LocRank': (True, False),
 'message.p2p:FindNode': (True, False)}

OWNERS = {'message.tasks:TaskToCompute': ['requestor'],
 'message.tasks:ReportComputedTask': ['provider'],
 'message.tasks:SubtaskResultsAccepted': ['requestor'],
 'message.tasks:SubtaskResultsRejected': ['requestor', 'concent'],
 'message.tasks:TaskFailure': ['provider'],
 'message.tasks:CannotComputeTask': ['provider'],
 'message.tasks:AckReportComputedTask': ['requestor', 'concent'],
 'message.tasks:RejectReportComputedTask': ['requestor', 'concent'],
 'message.concents:ServiceRefused': ['concent'],
 'message.concents:ForceReportComputedTask': ['provider', 'concent'],
 'message.concents:VerdictReportComputedTask': ['concent'],
 'message.concents:SubtaskResultsVerify': ['provider'],
 'message.concents:AckSubtaskResultsVerify': ['concent'],
 'message.concents:SubtaskResultsSettled': ['concent'],
 'message.concents:ForceGetTaskResult': ['requestor'],
 'message.concents:AckForceGetTaskResult': ['concent'],
 'message.concents:ForceGetTaskResultFailed': ['concent'],
 'message.concents:ForceGetTaskResultRejected': ['concent'],
 'message.concents:ForceGetTaskResultUpload': ['concent'],
 'message.concents:ForceGetTaskResultDownload': ['concent'],
 'message.concents:ForceSubtaskResults': ['provider', 'concent'],
 'message.concents:ForceSubtaskResultsResponse': ['concent'],
 'message.concents:ForceSubtaskResultsRejected': ['concent'],
 'message.concents:ForceReportComputedTaskResponse': ['concent']}

PROVIDERS = {'message.tasks:TaskToCompute': [],
 'message.tasks:ReportComputedTask': ['task_to_compute'],
 'message.tasks:SubtaskResultsAccepted': ['report_computed_task'],
 'message.tasks:SubtaskResultsRejected': ['report_computed_task'],
 'message.tasks:TaskFailure': ['task_to_compute'],
 'message.tasks:CannotComputeTask': ['task_to_compute'],
 'message.tasks:AckReportComputedTask': ['report_computed_task'],
 'message.tasks:RejectReportComputedTask': ['attached_task_to_compute',
                                            'task_failure',
                                            'cannot_compute_task'],
 'message.concents:ServiceRefused': ['task_to_compute'],
 'message.concents:ForceReportComputedTask': ['report_computed_task'],
 'message.concents:VerdictReportComputedTask': ['force_report_computed_task',
                                                'ack_report_computed_task'],
 'message.concents:SubtaskResultsVerify': ['subtask_results_rejected'],
 'message.concents:AckSubtaskResultsVerify': ['subtask_results_verify'],
 'message.concents:SubtaskResultsSettled': ['task_to_compute'],
 'message.concents:ForceGetTaskResult': ['report_computed_task'],
 'message.concents:AckForceGetTaskResult': ['force_get_task_result'],
 'message.concents:ForceGetTaskResultFailed': ['task_to_compute'],
 'message.concents:ForceGetTaskResultRejected': ['force_get_task_result'],
 'message.concents:ForceGetTaskResultUpload': ['force_get_task_result'],
 'message.concents:ForceGetTaskResultDownload': ['force_get_task_result'],
 'message.concents:ForceSubtaskResults': ['ack_report_computed_task'],
 'message.concents:ForceSubtaskResultsResponse': ['subtask_results_accepted',
                                                  'subtask_results_rejected'],
 'message.concents:ForceSubtaskResultsRejected': ['force_subtask_results'],
 'message.concents:ForceReportComputedTaskResponse': ['ack_report_computed_task',
                                                      'reject_report_computed_task']}


# Fields that hold an object of their own class once decoded.
OBJECT_FIELDS = {
    'message.base:Hello': ['node_info'],
    'message.p2p:Peers': ['peers'],
    'message.p2p:Tasks': ['tasks'],
    'message.p2p:WantToStartTaskSession': ['node_info', 'super_node_info'],
    'message.p2p:SetTaskSession': ['node_info', 'super_node_info'],
    'message.tasks:WantToComputeTask': ['task_header'],
    'message.tasks:ReportComputedTask': ['stats'],
}

# Fields the constructor normalises even when the value was given locally.
OWN_VALUES = {
    'message.tasks:WantToComputeTask': ['concent_enabled'],
    'message.tasks:TaskToCompute': ['concent_enabled'],
}

# Containers: {class: {field: (kind of value, required, default)}}. A kind
# is (name, parameters...); see checks/data.py.
_INT = ('int', None, None)
_PORT = ('int', 1, 65535)
_S128 = ('str', 128)
NODE = 'datastructures.p2p:Node'
HEADER = 'datastructures.tasks:TaskHeader'
_ST = 'datastructures.stats:'
CONTAINERS = {
    HEADER: {
        'mask': (('mask',), False, None),
        'timestamp': (_INT, True, None),
        'signature': (('bytes',), False, None),
        'task_id': (_S128, True, None),
        'task_owner': (('part', NODE, True), True, None),
        'deadline': (_INT, False, None),
        'subtask_timeout': (('int', 0, None), False, None),
        'market_type': (('enum', HEADER + '.MARKET_TYPE'), False, None),
        'environment': (_S128, False, None),
        'environment_prerequisites': (('dict',), False, None),
        'min_version': (('version',), True, None),
        'estimated_memory': (_INT, False, None),
        'max_price': (_INT, False, None),
        'subtask_budget': (_INT, False, None),
        'subtasks_count': (('int', 1, None), True, None),
        'concent_enabled': (('bool',), False, None),
    },
    NODE: {
        'node_name': (('str', None), False, None),
        'key': (_S128, False, None),
        'prv_port': (_PORT, False, None),
        'pub_port': (_PORT, False, None),
        'p2p_prv_port': (_PORT, False, None),
        'p2p_pub_port': (_PORT, False, None),
        'prv_addr': (('ip',), False, None),
        'pub_addr': (('ip',), False, None),
        'prv_addresses': (('any',), False, 'list'),
        'hyperdrive_prv_port': (_INT, False, None),
        'hyperdrive_pub_port': (_INT, False, None),
        'port_statuses': (('any',), False, 'dict'),
        'nat_type': (('any',), False, 'list'),
    },
    _ST + 'BlockIoStats': {f: (('dict',), False, None) for f in (
        'io_merged_recursive', 'io_queue_recursive',
        'io_service_bytes_recursive', 'io_service_time_recursive',
        'io_serviced_recursive', 'io_time_recursive',
        'io_wait_time_recursive', 'sectors_recursive')},
    _ST + 'CpuStats': {
        'cpu_usage': (('entries', _ST + 'CpuUsage'), False, None),
        'throttling_data': (('entries', _ST + 'ThrottlingData'), False,
                            None),
    },
    _ST + 'MemoryStats': {
        'kernel_tcp_usage': (('dict',), False, None),
        'kernel_usage': (('dict',), False, None),
        'swap_usage': (('dict',), False, None),
        'usage': (('dict',), False, None),
        'cache': (_INT, False, None),
        'stats': (('dict',), False, None),
        'use_hierarchy': (('bool',), False, None),
    },
    _ST + 'PidStats': {
        'current': (_INT, False, None),
        'limit': (_INT, False, None),
    },
    _ST + 'ProviderStats': {
        'blkio_stats': (('part', _ST + 'BlockIoStats', False), False, None),
        'cpu_stats': (('part', _ST + 'CpuStats', False), False, None),
        'memory_stats': (('part', _ST + 'MemoryStats', False), False, None),
        'pids_stats': (('part', _ST + 'PidStats', False), False, None),
    },
}

# Structured dictionaries: {class: {key: default}}, and the checked keys
RECORDS = {
    _ST + 'BlockIoEntry': {'major': 0, 'minor': 0, 'op': None, 'value': 0},
    _ST + 'CpuUsage': {'percpu_usage': [], 'total_usage': 0,
                       'usage_in_kernelmode': 0, 'usage_in_usermode': 0},
    _ST + 'ThrottlingData': {'periods': 0, 'throttled_periods': 0,
                             'throttled_time': 0},
    _ST + 'MemoryData': {'failcnt': 0, 'limit': 0, 'max_usage': 0,
                         'usage': 0},
    'datastructures.p2p:Peer': {'address': None, 'port': None,
                                'node': None},
    'message.concents:FileTransferToken.FileInfo': {
        'path': '', 'checksum': '', 'size': 0, 'category': 'results'},
    'message.tasks:ComputeTaskDef': {
        'task_id': '', 'subtask_id': '', 'deadline': 0, 'extra_data': {},
        'performance': 0, 'docker_images': None, 'resources': []},
}
CHECKED_KEYS = {
    'datastructures.p2p:Peer': {'address': ('ip',), 'port': _PORT,
                                'node': ('part', NODE, True)},
    'message.concents:FileTransferToken.FileInfo': {
        'category': ('member',
                     'message.concents:FileTransferToken.FileInfo.Category'),
    },
    'message.tasks:ComputeTaskDef': {'task_id': _S128, 'subtask_id': _S128},
}
