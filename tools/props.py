"""Which harnesses decide which property.

id -> features: cargo features of the harness crate to build; quick / thorough: harnesses ("name", "name:seconds" or
"name:seconds:preemptions", with "feature/" in front if it needs a build of its own); skip: assertions (by substring) that belong to another property."""
PROPS = {
    'C01': dict(features='fold,system', skip=['the fold never completes', "a directive's result queue remains", 'messages remain unacknowledged', 'a received result is not acknowledged', 'a result is rejected although', 'a worker stops although', 'a directive over AMQP hangs'],
        quick='fold_tiny fold_two fold_three fold_three_late fold_four fold_four_late fold_five fold_five_late:40 fold_many fold_sched fold_sched2 fold_eager fold_rng sys_fold2 sys_fold3 sys_fold3_late sys_fold4 sys_fold4_late sys_fold12',
        thorough='fold_six:120 fold_seven:120 fold_sched3:120 fold_eager2:200 sys_fold5_late:150'),
    'C02': dict(features='fold,system', skip=['the result does not consist', 'the elements are not combined', "a directive's result queue remains", 'messages remain unacknowledged', 'a received result is not acknowledged', 'a result is rejected although', 'a worker stops although'],
        quick='fold_tiny fold_two fold_three fold_three_late fold_four_late fold_five fold_five_late:40 fold_many fold_sched fold_sched2 fold_eager fold_rng sys_fold1 sys_fold2 sys_fold3 sys_fold3_late sys_fold4 sys_fold4_late sys_fold12',
        thorough='fold_six:120 fold_seven:120 fold_sched3:120 fold_eager2:200 sys_fold5_late:150'),
    'C03': dict(features='map,system', skip=["a directive's result queue remains", 'messages remain unacknowledged', 'a received result is not acknowledged', 'a result is rejected although', 'a worker stops although'],
        quick='map_tiny map_two:40 map_three map_three_late map_slow map_four map_five map_four_late:40 map_many map_sched map_sched2:40 map_eager map_rng sys_map2 sys_map3 sys_map3_late:40 sys_map12:40', thorough=''),
    'C04': dict(features='fail,system',
        quick='fail_fold_two fail_fold_three fail_fold_four:40 fail_fold_many fail_fold_sched fail_map_two fail_map_three fail_map_many fail_map_sched:60 fail_chain fail_collect fail_long fail_codec_map2 fail_codec_map3 fail_codec_fold2 fail_codec_fold3 fail_codec_literal sys_failing2 sys_failing3',
        thorough='fail_map_four:200'),
    'C05': dict(features='literal,system', skip=["a directive's result queue remains", 'messages remain unacknowledged', 'a received result is not acknowledged', 'a result is rejected although', 'a worker stops although'], quick='literal_one literal_chain literal_fail literal_sched sys_literal1 sys_literal2', thorough=''),
    'C06': dict(features='multi,system', skip=["a directive's result queue remains", 'messages remain unacknowledged', 'a received result is not acknowledged', 'a result is rejected although', 'a worker stops although'],
        quick='multi_maps multi_map_fold multi_folds multi_literals multi_sequence multi_chain multi_chain3 multi_sched multi_three multi_runtimes sys_two sys_two_one', thorough=''),
    'C07': dict(features='coord', skip=['a failed publish', 'on a closed sender', 'closing fails'],
        quick='coord_seq4 coord_seq5 coord_seq6 coord_seq7 coord_end5 coord_end6 coord_slow5 coord_slow6 coord_slow7 coord_slow8:60 coord_tasks coord_tasks3 coord_tasks_eager:60 coord_tasks_deep:60 coord_leased', thorough='coord_seq8:120 coord_seq9:200'),
    'C08': dict(features='coord',
        quick='coord_seq4 coord_seq6 coord_fail4 coord_fail5 coord_fail6 coord_fail7 coord_slow_fail5 coord_slow_fail6 coord_leased', thorough='coord_fail8:200'),
    'C09': dict(features='acker', quick='acker_pair acker_nested acker_wrapped acker_once:40 acker_channel', thorough=''),
    'C10': dict(features='queues', quick='once_5 once_6 once_7 once_8 once_routes once_routes6 once_payloads once_bulk once_tasks once_tasks_sched', thorough=''),
    'C11': dict(features='queues', quick='cast_5 cast_6 cast_7 cast_8:60 cast_payloads cast_bulk cast_tasks cast_tasks_sched', thorough=''),
    'C12': dict(features='names', quick='names_4 names_5 names_6 names_four names_survive names_channels_once names_channels_cast names_receivers names_guard names_leased names_fresh names_options names_memory_lease names_memory_literal names_memory_map names_memory_fold', thorough=''),
    'C13': dict(features='threads',
        quick='thr_once_publish::3 thr_once_consume::3 thr_once_wait::3 thr_once_wait2:45:2 thr_cast_publish::2 thr_cast_declare::2 thr_cast_declare2:45:2 thr_cast_wait::2 thr_declare::2 thr_coord_close::3 thr_coord_ack::3 thr_coord_end::3 thr_coord_ack_twice::4 thr_asm_two::3 thr_asm_three::3 thr_asm_find::3',
        thorough=''),
    'C14': dict(features='assembler', quick='asm_2 asm_3 asm_4 asm_join3 asm_join4 asm_remove3 asm_remove4:40 asm_initial asm_wide asm_find', thorough='asm_5:120 asm_join5:120 asm_initial3:120'),
    'C15': dict(features='retry', quick='retry_plain retry_plain6 retry_slow retry_error retry_error6 retry_exponential retry_exponential_slow retry_remote', thorough=''),
    'C16': dict(features='errors', quick='err_transient err_fatal err_default err_causes err_backoff', thorough=''),
    'C17': dict(features='serial', quick='ser_ints ser_wide ser_floats ser_text ser_text3 ser_char ser_options ser_tuples ser_seqs ser_seqs3 ser_bytes ser_enums ser_record ser_wrap ser_names ser_std ser_maps ser_long_bytes ser_long_text ser_large ser_task ser_ok ser_err ser_command ser_recorded', thorough=''),
    'C18': dict(features='envelope', quick='env_each env_wire env_failing env_abort env_many', thorough=''),
    'C19': dict(features='worker', quick='worker_one worker_two worker_three worker_four_calm worker_shared2 worker_shared3 worker_shared4:60 worker_command1 worker_command2 worker_later_fresh worker_later_reaped', thorough=''),
    'C20': dict(features='worker', quick='abort_amqp1 abort_amqp2 abort_amqp3 abort_burst1 abort_burst2 abort_memory1 abort_memory1_2 abort_memory2 abort_memory2_3 abort_memory3 abort_memory3_2 abort_failure2 abort_failure3 abort_failure2_3', thorough=''),
    'C21': dict(features='config,cli', quick='cli_formats cli_workers cli_texts cli_invalid config_leader config_separate_literal config_separate_map config_separate_fold config_workers2 config_workers4 config_workers5 config_workers_many config_balanced config_refused', thorough=''),
    'C22': dict(features='streams', quick='streams_numbered streams_errors streams_errors6 streams_sorted2 streams_sorted3 streams_sorted4 streams_sorted5:90 streams_failing streams_repeated streams_many', thorough=''),
    'C23': dict(features='publishers', quick='pub_all2 pub_all3 pub_all4 pub_all4_late pub_all5 pub_fast6 pub_with pub_wrapped pub_with_all', thorough=''),
    'C24': dict(features='amqp,system', quick='amqp_once4 amqp_once5 amqp_once5_two amqp_once6:60 amqp_marks amqp_failures amqp_bad amqp_errors amqp_bad4 amqp_concurrent amqp_broadcast_one amqp_broadcast sys_literal2 sys_map3 sys_fold3_late sys_fold4 sys_close', thorough=''),
    'C27': dict(features='malformed',
        quick='bad_ints bad_ints6 bad_text bad_text5 bad_bytes bad_options bad_options6 bad_seqs bad_postcard_seqs bad_postcard_bytes bad_postcard_task bad_postcard_result bad_postcard_command bad_cbor_task bad_cbor_result bad_cbor_command bad_corrupt_task bad_corrupt_output bad_corrupt_error bad_corrupt_command bad_op bad_input bad_meta bad_choose_op bad_choose_input bad_cat_input bad_identifier bad_wire bad_output',
        thorough='bad_corrupt_task2:150 bad_corrupt_output2:100 bad_corrupt_error2:100 bad_corrupt_command2:100'),
    'C25': dict(features='dispatch', quick='dispatch_modules dispatch_identifier dispatch_two dispatch_monoid dispatch_distinct crates/crates_each', thorough='wrap/wrap_distinct'),
    'C26': dict(features='abandon,system', quick='abandon_fold abandon_map abandon_literal abandon_steps abandon_map_steps abandon_runtime abandon_memory abandon_outside sys_outside sys_abandon_literal sys_abandon_fold sys_abandon_map:40', thorough=''),
}
