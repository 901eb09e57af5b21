// @generated list of the fixed size messages (see spec.rs)

msg! { cv1_note_off: midi2::channel_voice1::NoteOff, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x20800000, 0x0, 0x0, 0x0], new [0x20800000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); velocity set_velocity u7 = B(0,0,7); }
}

msg! { cv1_note_on: midi2::channel_voice1::NoteOn, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x20900000, 0x0, 0x0, 0x0], new [0x20900000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); velocity set_velocity u7 = B(0,0,7); }
}

msg! { cv1_key_pressure: midi2::channel_voice1::KeyPressure, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x20a00000, 0x0, 0x0, 0x0], new [0x20a00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); pressure set_pressure u7 = B(0,0,7); }
}

msg! { cv1_control_change: midi2::channel_voice1::ControlChange, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x20b00000, 0x0, 0x0, 0x0], new [0x20b00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); control set_control u7 = B(0,8,7); control_data set_control_data u7 = B(0,0,7); }
}

msg! { cv1_program_change: midi2::channel_voice1::ProgramChange, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x20c00000, 0x0, 0x0, 0x0], new [0x20c00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); program set_program u7 = B(0,8,7); }
}

msg! { cv1_channel_pressure: midi2::channel_voice1::ChannelPressure, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x20d00000, 0x0, 0x0, 0x0], new [0x20d00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); pressure set_pressure u7 = B(0,8,7); }
}

msg! { cv1_pitch_bend: midi2::channel_voice1::PitchBend, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x20e00000, 0x0, 0x0, 0x0], new [0x20e00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); bend set_bend u14 = S14(0,8,0); }
}

msg! { cv2_registered_per_note_controller: midi2::channel_voice2::RegisteredPerNoteController, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40000000, 0x0, 0x0, 0x0], new [0x40000001, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); controller set_controller Controller = CtlL; }
}

msg! { cv2_assignable_per_note_controller: midi2::channel_voice2::AssignablePerNoteController, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40100000, 0x0, 0x0, 0x0], new [0x40100000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); index set_index u8 = B(0,0,8); controller_data set_controller_data u32 = B(1,0,32); }
}

msg! { cv2_registered_controller: midi2::channel_voice2::RegisteredController, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40200000, 0x0, 0x0, 0x0], new [0x40200000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); bank set_bank u7 = B(0,8,7); index set_index u7 = B(0,0,7); controller_data set_controller_data u32 = B(1,0,32); }
}

msg! { cv2_assignable_controller: midi2::channel_voice2::AssignableController, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40300000, 0x0, 0x0, 0x0], new [0x40300000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); bank set_bank u7 = B(0,8,7); index set_index u7 = B(0,0,7); controller_data set_controller_data u32 = B(1,0,32); }
}

msg! { cv2_relative_registered_controller: midi2::channel_voice2::RelativeRegisteredController, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40400000, 0x0, 0x0, 0x0], new [0x40400000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); bank set_bank u7 = B(0,8,7); index set_index u7 = B(0,0,7); controller_data set_controller_data u32 = B(1,0,32); }
}

msg! { cv2_relative_assignable_controller: midi2::channel_voice2::RelativeAssignableController, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40500000, 0x0, 0x0, 0x0], new [0x40500000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); bank set_bank u7 = B(0,8,7); index set_index u7 = B(0,0,7); controller_data set_controller_data u32 = B(1,0,32); }
}

msg! { cv2_per_note_pitch_bend: midi2::channel_voice2::PerNotePitchBend, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40600000, 0x0, 0x0, 0x0], new [0x40600000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); pitch_bend_data set_pitch_bend_data u32 = B(1,0,32); }
}

msg! { cv2_note_off: midi2::channel_voice2::NoteOff, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40800000, 0x0, 0x0, 0x0], new [0x40800000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); velocity set_velocity u16 = B(1,16,16); attribute set_attribute Option<NoteAttribute> = Attr; }
}

msg! { cv2_note_on: midi2::channel_voice2::NoteOn, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40900000, 0x0, 0x0, 0x0], new [0x40900000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); velocity set_velocity u16 = B(1,16,16); attribute set_attribute Option<NoteAttribute> = Attr; }
}

msg! { cv2_key_pressure: midi2::channel_voice2::KeyPressure, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40a00000, 0x0, 0x0, 0x0], new [0x40a00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); key_pressure_data set_key_pressure_data u32 = B(1,0,32); }
}

msg! { cv2_control_change: midi2::channel_voice2::ControlChange, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40b00000, 0x0, 0x0, 0x0], new [0x40b00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); control set_control u7 = B(0,8,7); control_change_data set_control_change_data u32 = B(1,0,32); }
}

msg! { cv2_program_change: midi2::channel_voice2::ProgramChange, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40c00000, 0x0, 0x0, 0x0], new [0x40c00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); program set_program u7 = B(1,24,7); bank set_bank Option<u14> = BankL; }
}

msg! { cv2_channel_pressure: midi2::channel_voice2::ChannelPressure, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40d00000, 0x0, 0x0, 0x0], new [0x40d00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); bank set_bank u7 = B(0,8,7); index set_index u7 = B(0,0,7); channel_pressure_data set_channel_pressure_data u32 = B(1,0,32); }
}

msg! { cv2_channel_pitch_bend: midi2::channel_voice2::ChannelPitchBend, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40e00000, 0x0, 0x0, 0x0], new [0x40e00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); pitch_bend_data set_pitch_bend_data u32 = B(1,0,32); }
}

msg! { cv2_per_note_management: midi2::channel_voice2::PerNoteManagement, 2, [0xf0f00000, 0x0, 0x0, 0x0] => [0x40f00000, 0x0, 0x0, 0x0], new [0x40f00000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { channel set_channel u4 = B(0,16,4); note_number set_note_number u7 = B(0,8,7); detach set_detach bool = B(0,0,1); reset set_reset bool = B(0,1,1); }
}

msg! { sysc_time_code: midi2::system_common::TimeCode, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10f10000, 0x0, 0x0, 0x0], new [0x10f10000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { time_code set_time_code u7 = B(0,8,7); }
}

msg! { sysc_song_position_pointer: midi2::system_common::SongPositionPointer, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10f20000, 0x0, 0x0, 0x0], new [0x10f20000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { position set_position u14 = S14(0,8,0); }
}

msg! { sysc_song_select: midi2::system_common::SongSelect, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10f30000, 0x0, 0x0, 0x0], new [0x10f30000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { song set_song u7 = B(0,8,7); }
}

msg! { sysc_tune_request: midi2::system_common::TuneRequest, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10f60000, 0x0, 0x0, 0x0], new [0x10f60000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both {  }
}

msg! { sysc_timing_clock: midi2::system_common::TimingClock, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10f80000, 0x0, 0x0, 0x0], new [0x10f80000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both {  }
}

msg! { sysc_start: midi2::system_common::Start, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10fa0000, 0x0, 0x0, 0x0], new [0x10fa0000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both {  }
}

msg! { sysc_continue: midi2::system_common::Continue, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10fb0000, 0x0, 0x0, 0x0], new [0x10fb0000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both {  }
}

msg! { sysc_stop: midi2::system_common::Stop, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10fc0000, 0x0, 0x0, 0x0], new [0x10fc0000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both {  }
}

msg! { sysc_active_sensing: midi2::system_common::ActiveSensing, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10fe0000, 0x0, 0x0, 0x0], new [0x10fe0000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both {  }
}

msg! { sysc_reset: midi2::system_common::Reset, 1, [0xf0ff0000, 0x0, 0x0, 0x0] => [0x10ff0000, 0x0, 0x0, 0x0], new [0x10ff0000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both {  }
}

msg! { util_no_op: midi2::utility::NoOp, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x0, 0x0, 0x0, 0x0], new [0x0, 0x0, 0x0, 0x0],
    ump {  }
    both { time_data set_time_data u16 = B(0,0,16); }
}

msg! { util_clock: midi2::utility::Clock, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x100000, 0x0, 0x0, 0x0], new [0x100000, 0x0, 0x0, 0x0],
    ump {  }
    both { time_data set_time_data u16 = B(0,0,16); }
}

msg! { util_timestamp: midi2::utility::Timestamp, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x200000, 0x0, 0x0, 0x0], new [0x200000, 0x0, 0x0, 0x0],
    ump {  }
    both { time_data set_time_data u16 = B(0,0,16); }
}

msg! { util_delta_clockstamp_tpq: midi2::utility::DeltaClockstampTpq, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x300000, 0x0, 0x0, 0x0], new [0x300000, 0x0, 0x0, 0x0],
    ump {  }
    both { time_data set_time_data u16 = B(0,0,16); }
}

msg! { util_delta_clockstamp: midi2::utility::DeltaClockstamp, 1, [0xf0f00000, 0x0, 0x0, 0x0] => [0x400000, 0x0, 0x0, 0x0], new [0x400000, 0x0, 0x0, 0x0],
    ump {  }
    both { time_data set_time_data u20 = B(0,0,20); }
}

msg! { flex_set_tempo: midi2::flex_data::SetTempo, 4, [0xf0c0ffff, 0x0, 0x0, 0x0] => [0xd0000000, 0x0, 0x0, 0x0], new [0xd0100000, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { number_of_10_nanosecond_units_per_quarter_note set_number_of_10_nanosecond_units_per_quarter_note u32 = B(1,0,32); }
}

msg! { flex_set_time_signature: midi2::flex_data::SetTimeSignature, 4, [0xf0c0ffff, 0x0, 0x0, 0x0] => [0xd0000001, 0x0, 0x0, 0x0], new [0xd0100001, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { numerator set_numerator u8 = B(1,24,8); denominator set_denominator u8 = B(1,16,8); number_of_32nd_notes set_number_of_32nd_notes u8 = B(1,8,8); }
}

msg! { flex_set_metronome: midi2::flex_data::SetMetronome, 4, [0xf0c0ffff, 0x0, 0x0, 0x0] => [0xd0000002, 0x0, 0x0, 0x0], new [0xd0100002, 0x0, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { number_of_clocks_per_primary_click set_number_of_clocks_per_primary_click u8 = B(1,24,8); bar_accent1 set_bar_accent1 u8 = B(1,16,8); bar_accent2 set_bar_accent2 u8 = B(1,8,8); bar_accent3 set_bar_accent3 u8 = B(1,0,8); number_of_subdivision_clicks1 set_number_of_subdivision_clicks1 u8 = B(2,24,8); number_of_subdivision_clicks2 set_number_of_subdivision_clicks2 u8 = B(2,16,8); }
}

msg! { flex_set_key_signature: midi2::flex_data::SetKeySignature, 4, [0xf0c0ffff, 0x0, 0x0, 0x0] => [0xd0000005, 0x0, 0x0, 0x0], new [0xd0100005, 0x3000000, 0x0, 0x0],
    ump { group set_group u4 = B(0,24,4); }
    both { optional_channel set_optional_channel Option<u4> = Addr; tonic set_tonic Tonic = E(1,24,4,&TONIC); sharps_flats set_sharps_flats KeySharps = KeySharpsL; }
}

msg! { flex_set_chord_name: midi2::flex_data::SetChordName, 4, [0xf0c0ffff, 0x0, 0x0, 0x0] => [0xd0000006, 0x0, 0x0, 0x0], new [0xd0100006, 0x3000000, 0x0, 0x3000000],
    ump { group set_group u4 = B(0,24,4); }
    both { optional_channel set_optional_channel Option<u4> = Addr; tonic_sharps_flats set_tonic_sharps_flats ChordSharps = E(1,28,4,&CHORD_SHARPS); tonic set_tonic Tonic = E(1,24,4,&TONIC); chord_type set_chord_type ChordType = E(1,16,8,&CHORD); chord_alteration1 set_chord_alteration1 Option<Alteration> = Alt(1,8); chord_alteration2 set_chord_alteration2 Option<Alteration> = Alt(1,0); chord_alteration3 set_chord_alteration3 Option<Alteration> = Alt(2,24); chord_alteration4 set_chord_alteration4 Option<Alteration> = Alt(2,16); bass_sharps_flats set_bass_sharps_flats ChordSharps = E(3,28,4,&CHORD_SHARPS); bass_note set_bass_note Tonic = E(3,24,4,&TONIC); bass_chord_type set_bass_chord_type ChordType = E(3,16,8,&CHORD); bass_alteration1 set_bass_alteration1 Option<Alteration> = Alt(3,8); bass_alteration2 set_bass_alteration2 Option<Alteration> = Alt(3,0); }
}

msg! { stream_endpoint_discovery: midi2::ump_stream::EndpointDiscovery, 4, [0xffff0000, 0x0, 0x0, 0x0] => [0xf0000000, 0x0, 0x0, 0x0], new [0xf0000000, 0x0, 0x0, 0x0],
    ump {  }
    both { ump_version_major set_ump_version_major u8 = B(0,8,8); ump_version_minor set_ump_version_minor u8 = B(0,0,8); request_endpoint_info set_request_endpoint_info bool = B(1,0,1); request_device_identity set_request_device_identity bool = B(1,1,1); request_endpoint_name set_request_endpoint_name bool = B(1,2,1); request_product_instance_id set_request_product_instance_id bool = B(1,3,1); request_stream_configuration set_request_stream_configuration bool = B(1,4,1); }
}

msg! { stream_endpoint_info: midi2::ump_stream::EndpointInfo, 4, [0xffff0000, 0x0, 0x0, 0x0] => [0xf0010000, 0x0, 0x0, 0x0], new [0xf0010000, 0x0, 0x0, 0x0],
    ump {  }
    both { ump_version_major set_ump_version_major u8 = B(0,8,8); ump_version_minor set_ump_version_minor u8 = B(0,0,8); static_function_blocks set_static_function_blocks bool = B(1,31,1); supports_midi2_protocol set_supports_midi2_protocol bool = B(1,9,1); supports_midi1_protocol set_supports_midi1_protocol bool = B(1,8,1); supports_receiving_jr_timestamps set_supports_receiving_jr_timestamps bool = B(1,1,1); supports_sending_jr_timestamps set_supports_sending_jr_timestamps bool = B(1,0,1); number_of_function_blocks set_number_of_function_blocks u7 = B(1,24,7); }
}

msg! { stream_device_identity: midi2::ump_stream::DeviceIdentity, 4, [0xffff0000, 0x0, 0x0, 0x0] => [0xf0020000, 0x0, 0x0, 0x0], new [0xf0020000, 0x0, 0x0, 0x0],
    ump {  }
    both { device_manufacturer set_device_manufacturer [u7; 3] = Sevens(1); device_family set_device_family u14 = S14(2,24,16); device_family_model_number set_device_family_model_number u14 = S14(2,8,0); software_version set_software_version [u7; 4] = Sevens(3); }
}

msg! { stream_stream_configuration_request: midi2::ump_stream::StreamConfigurationRequest, 4, [0xffff0000, 0x0, 0x0, 0x0] => [0xf0050000, 0x0, 0x0, 0x0], new [0xf0050000, 0x0, 0x0, 0x0],
    ump {  }
    both { protocol set_protocol u8 = B(0,8,8); receive_jr_timestamps set_receive_jr_timestamps bool = B(0,1,1); send_jr_timestamps set_send_jr_timestamps bool = B(0,0,1); }
}

msg! { stream_stream_configuration_notification: midi2::ump_stream::StreamConfigurationNotification, 4, [0xffff0000, 0x0, 0x0, 0x0] => [0xf0060000, 0x0, 0x0, 0x0], new [0xf0060000, 0x0, 0x0, 0x0],
    ump {  }
    both { protocol set_protocol u8 = B(0,8,8); receive_jr_timestamps set_receive_jr_timestamps bool = B(0,1,1); send_jr_timestamps set_send_jr_timestamps bool = B(0,0,1); }
}

msg! { stream_function_block_discovery: midi2::ump_stream::FunctionBlockDiscovery, 4, [0xffff0000, 0x0, 0x0, 0x0] => [0xf0100000, 0x0, 0x0, 0x0], new [0xf0100000, 0x0, 0x0, 0x0],
    ump {  }
    both { function_block_number set_function_block_number u8 = B(0,8,8); requesting_function_block_info set_requesting_function_block_info bool = B(0,1,1); requesting_function_block_name set_requesting_function_block_name bool = B(0,0,1); }
}

msg! { stream_function_block_info: midi2::ump_stream::FunctionBlockInfo, 4, [0xffff0000, 0x0, 0x0, 0x0] => [0xf0110000, 0x0, 0x0, 0x0], new [0xf0110003, 0x0, 0x0, 0x0],
    ump {  }
    both { active set_active bool = B(0,15,1); function_block_number set_function_block_number u7 = B(0,8,7); first_group set_first_group u4 = B(1,24,4); number_of_groups_spanned set_number_of_groups_spanned u8 = B(1,16,8); midi_ci_version set_midi_ci_version u8 = B(1,8,8); max_number_of_midi_ci_streams set_max_number_of_midi_ci_streams u8 = B(1,0,8); ui_hint set_ui_hint UiHint = E(0,4,2,&HINT); midi1_port set_midi1_port Option<Midi1Port> = E(0,2,2,&PORT); direction set_direction Direction = E(0,0,2,&DIR); }
}

msg! { stream_start_of_clip: midi2::ump_stream::StartOfClip, 4, [0xffff0000, 0x0, 0x0, 0x0] => [0xf0200000, 0x0, 0x0, 0x0], new [0xf0200000, 0x0, 0x0, 0x0],
    ump {  }
    both {  }
}

msg! { stream_end_of_clip: midi2::ump_stream::EndOfClip, 4, [0xffff0000, 0x0, 0x0, 0x0] => [0xf0210000, 0x0, 0x0, 0x0], new [0xf0210000, 0x0, 0x0, 0x0],
    ump {  }
    both {  }
}

/// calls `$f` of one of the messages of a family

macro_rules! pick {
    (cv1, $f:ident) => { match $crate::sym::choose(7) { 0 => $crate::spec::cv1_note_off::$f(), 1 => $crate::spec::cv1_note_on::$f(), 2 => $crate::spec::cv1_key_pressure::$f(), 3 => $crate::spec::cv1_control_change::$f(), 4 => $crate::spec::cv1_program_change::$f(), 5 => $crate::spec::cv1_channel_pressure::$f(), _ => $crate::spec::cv1_pitch_bend::$f(), } };
    (cv2, $f:ident) => { match $crate::sym::choose(15) { 0 => $crate::spec::cv2_registered_per_note_controller::$f(), 1 => $crate::spec::cv2_assignable_per_note_controller::$f(), 2 => $crate::spec::cv2_registered_controller::$f(), 3 => $crate::spec::cv2_assignable_controller::$f(), 4 => $crate::spec::cv2_relative_registered_controller::$f(), 5 => $crate::spec::cv2_relative_assignable_controller::$f(), 6 => $crate::spec::cv2_per_note_pitch_bend::$f(), 7 => $crate::spec::cv2_note_off::$f(), 8 => $crate::spec::cv2_note_on::$f(), 9 => $crate::spec::cv2_key_pressure::$f(), 10 => $crate::spec::cv2_control_change::$f(), 11 => $crate::spec::cv2_program_change::$f(), 12 => $crate::spec::cv2_channel_pressure::$f(), 13 => $crate::spec::cv2_channel_pitch_bend::$f(), _ => $crate::spec::cv2_per_note_management::$f(), } };
    (sysc, $f:ident) => { match $crate::sym::choose(10) { 0 => $crate::spec::sysc_time_code::$f(), 1 => $crate::spec::sysc_song_position_pointer::$f(), 2 => $crate::spec::sysc_song_select::$f(), 3 => $crate::spec::sysc_tune_request::$f(), 4 => $crate::spec::sysc_timing_clock::$f(), 5 => $crate::spec::sysc_start::$f(), 6 => $crate::spec::sysc_continue::$f(), 7 => $crate::spec::sysc_stop::$f(), 8 => $crate::spec::sysc_active_sensing::$f(), _ => $crate::spec::sysc_reset::$f(), } };
    (util, $f:ident) => { match $crate::sym::choose(5) { 0 => $crate::spec::util_no_op::$f(), 1 => $crate::spec::util_clock::$f(), 2 => $crate::spec::util_timestamp::$f(), 3 => $crate::spec::util_delta_clockstamp_tpq::$f(), _ => $crate::spec::util_delta_clockstamp::$f(), } };
    (flex, $f:ident) => { match $crate::sym::choose(5) { 0 => $crate::spec::flex_set_tempo::$f(), 1 => $crate::spec::flex_set_time_signature::$f(), 2 => $crate::spec::flex_set_metronome::$f(), 3 => $crate::spec::flex_set_key_signature::$f(), _ => $crate::spec::flex_set_chord_name::$f(), } };
    (stream, $f:ident) => { match $crate::sym::choose(9) { 0 => $crate::spec::stream_endpoint_discovery::$f(), 1 => $crate::spec::stream_endpoint_info::$f(), 2 => $crate::spec::stream_device_identity::$f(), 3 => $crate::spec::stream_stream_configuration_request::$f(), 4 => $crate::spec::stream_stream_configuration_notification::$f(), 5 => $crate::spec::stream_function_block_discovery::$f(), 6 => $crate::spec::stream_function_block_info::$f(), 7 => $crate::spec::stream_start_of_clip::$f(), _ => $crate::spec::stream_end_of_clip::$f(), } };
}
