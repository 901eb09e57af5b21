// list of the fixed size messages with a byte form (see spec.rs)

msgb! { b_cv1_note_off of cv1_note_off in ChannelVoice1, 3, { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); velocity set_velocity u7 = B(0,0,7); } }

msgb! { b_cv1_note_on of cv1_note_on in ChannelVoice1, 3, { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); velocity set_velocity u7 = B(0,0,7); } }

msgb! { b_cv1_key_pressure of cv1_key_pressure in ChannelVoice1, 3, { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); pressure set_pressure u7 = B(0,0,7); } }

msgb! { b_cv1_control_change of cv1_control_change in ChannelVoice1, 3, { channel set_channel u4 = B(0,16,4); control set_control u7 = B(0,8,7); control_data set_control_data u7 = B(0,0,7); } }

msgb! { b_cv1_program_change of cv1_program_change in ChannelVoice1, 2, { channel set_channel u4 = B(0,16,4); program set_program u7 = B(0,8,7); } }

msgb! { b_cv1_channel_pressure of cv1_channel_pressure in ChannelVoice1, 2, { channel set_channel u4 = B(0,16,4); pressure set_pressure u7 = B(0,8,7); } }

msgb! { b_cv1_pitch_bend of cv1_pitch_bend in ChannelVoice1, 3, { channel set_channel u4 = B(0,16,4); bend set_bend u14 = S14(0,8,0); } }

msgb! { b_sysc_time_code of sysc_time_code in SystemCommon, 2, { time_code set_time_code u7 = B(0,8,7); } }

msgb! { b_sysc_song_position_pointer of sysc_song_position_pointer in SystemCommon, 3, { position set_position u14 = S14(0,8,0); } }

msgb! { b_sysc_song_select of sysc_song_select in SystemCommon, 2, { song set_song u7 = B(0,8,7); } }

msgb! { b_sysc_tune_request of sysc_tune_request in SystemCommon, 1, {  } }

msgb! { b_sysc_timing_clock of sysc_timing_clock in SystemCommon, 1, {  } }

msgb! { b_sysc_start of sysc_start in SystemCommon, 1, {  } }

msgb! { b_sysc_continue of sysc_continue in SystemCommon, 1, {  } }

msgb! { b_sysc_stop of sysc_stop in SystemCommon, 1, {  } }

msgb! { b_sysc_active_sensing of sysc_active_sensing in SystemCommon, 1, {  } }

msgb! { b_sysc_reset of sysc_reset in SystemCommon, 1, {  } }

macro_rules! pickb {
    (cv1, $f:ident) => { match $crate::sym::choose(7) { 0 => $crate::spec::b_cv1_note_off::$f(), 1 => $crate::spec::b_cv1_note_on::$f(), 2 => $crate::spec::b_cv1_key_pressure::$f(), 3 => $crate::spec::b_cv1_control_change::$f(), 4 => $crate::spec::b_cv1_program_change::$f(), 5 => $crate::spec::b_cv1_channel_pressure::$f(), _ => $crate::spec::b_cv1_pitch_bend::$f(), } };
    (sysc, $f:ident) => { match $crate::sym::choose(10) { 0 => $crate::spec::b_sysc_time_code::$f(), 1 => $crate::spec::b_sysc_song_position_pointer::$f(), 2 => $crate::spec::b_sysc_song_select::$f(), 3 => $crate::spec::b_sysc_tune_request::$f(), 4 => $crate::spec::b_sysc_timing_clock::$f(), 5 => $crate::spec::b_sysc_start::$f(), 6 => $crate::spec::b_sysc_continue::$f(), 7 => $crate::spec::b_sysc_stop::$f(), 8 => $crate::spec::b_sysc_active_sensing::$f(), _ => $crate::spec::b_sysc_reset::$f(), } };
}
