// Code generated by tools/gen_registry.py; DO NOT EDIT.

package mv

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/paparazzi"
	"github.com/botlink/go-mavlink2/slugs"
	"github.com/botlink/go-mavlink2/ualberta"
)

var registry = map[string]func() mavlink2.Message{}

func init() {
	registry["common.Heartbeat"] = func() mavlink2.Message { return &common.Heartbeat{} }
	registry["common.SysStatus"] = func() mavlink2.Message { return &common.SysStatus{} }
	registry["common.SystemTime"] = func() mavlink2.Message { return &common.SystemTime{} }
	registry["common.Ping"] = func() mavlink2.Message { return &common.Ping{} }
	registry["common.ChangeOperatorControl"] = func() mavlink2.Message { return &common.ChangeOperatorControl{} }
	registry["common.ChangeOperatorControlAck"] = func() mavlink2.Message { return &common.ChangeOperatorControlAck{} }
	registry["common.AuthKey"] = func() mavlink2.Message { return &common.AuthKey{} }
	registry["common.LinkNodeStatus"] = func() mavlink2.Message { return &common.LinkNodeStatus{} }
	registry["common.SetMode"] = func() mavlink2.Message { return &common.SetMode{} }
	registry["common.ParamRequestRead"] = func() mavlink2.Message { return &common.ParamRequestRead{} }
	registry["common.ParamRequestList"] = func() mavlink2.Message { return &common.ParamRequestList{} }
	registry["common.ParamValue"] = func() mavlink2.Message { return &common.ParamValue{} }
	registry["common.ParamSet"] = func() mavlink2.Message { return &common.ParamSet{} }
	registry["common.GPSRawInt"] = func() mavlink2.Message { return &common.GPSRawInt{} }
	registry["common.GPSStatus"] = func() mavlink2.Message { return &common.GPSStatus{} }
	registry["common.ScaledIMU"] = func() mavlink2.Message { return &common.ScaledIMU{} }
	registry["common.RawIMU"] = func() mavlink2.Message { return &common.RawIMU{} }
	registry["common.RawPressure"] = func() mavlink2.Message { return &common.RawPressure{} }
	registry["common.ScaledPressure"] = func() mavlink2.Message { return &common.ScaledPressure{} }
	registry["common.Attitude"] = func() mavlink2.Message { return &common.Attitude{} }
	registry["common.AttitudeQuaternion"] = func() mavlink2.Message { return &common.AttitudeQuaternion{} }
	registry["common.LocalPositionNed"] = func() mavlink2.Message { return &common.LocalPositionNed{} }
	registry["common.GlobalPositionInt"] = func() mavlink2.Message { return &common.GlobalPositionInt{} }
	registry["common.RCChannelsScaled"] = func() mavlink2.Message { return &common.RCChannelsScaled{} }
	registry["common.RCChannelsRaw"] = func() mavlink2.Message { return &common.RCChannelsRaw{} }
	registry["common.ServoOutputRaw"] = func() mavlink2.Message { return &common.ServoOutputRaw{} }
	registry["common.MissionRequestPartialList"] = func() mavlink2.Message { return &common.MissionRequestPartialList{} }
	registry["common.MissionWritePartialList"] = func() mavlink2.Message { return &common.MissionWritePartialList{} }
	registry["common.MissionItem"] = func() mavlink2.Message { return &common.MissionItem{} }
	registry["common.MissionRequest"] = func() mavlink2.Message { return &common.MissionRequest{} }
	registry["common.MissionSetCurrent"] = func() mavlink2.Message { return &common.MissionSetCurrent{} }
	registry["common.MissionCurrent"] = func() mavlink2.Message { return &common.MissionCurrent{} }
	registry["common.MissionRequestList"] = func() mavlink2.Message { return &common.MissionRequestList{} }
	registry["common.MissionCount"] = func() mavlink2.Message { return &common.MissionCount{} }
	registry["common.MissionClearAll"] = func() mavlink2.Message { return &common.MissionClearAll{} }
	registry["common.MissionItemReached"] = func() mavlink2.Message { return &common.MissionItemReached{} }
	registry["common.MissionAck"] = func() mavlink2.Message { return &common.MissionAck{} }
	registry["common.SetGPSGlobalOrigin"] = func() mavlink2.Message { return &common.SetGPSGlobalOrigin{} }
	registry["common.GPSGlobalOrigin"] = func() mavlink2.Message { return &common.GPSGlobalOrigin{} }
	registry["common.ParamMapRC"] = func() mavlink2.Message { return &common.ParamMapRC{} }
	registry["common.MissionRequestInt"] = func() mavlink2.Message { return &common.MissionRequestInt{} }
	registry["common.MissionChanged"] = func() mavlink2.Message { return &common.MissionChanged{} }
	registry["common.SafetySetAllowedArea"] = func() mavlink2.Message { return &common.SafetySetAllowedArea{} }
	registry["common.SafetyAllowedArea"] = func() mavlink2.Message { return &common.SafetyAllowedArea{} }
	registry["common.AttitudeQuaternionCov"] = func() mavlink2.Message { return &common.AttitudeQuaternionCov{} }
	registry["common.NAVControllerOutput"] = func() mavlink2.Message { return &common.NAVControllerOutput{} }
	registry["common.GlobalPositionIntCov"] = func() mavlink2.Message { return &common.GlobalPositionIntCov{} }
	registry["common.LocalPositionNedCov"] = func() mavlink2.Message { return &common.LocalPositionNedCov{} }
	registry["common.RCChannels"] = func() mavlink2.Message { return &common.RCChannels{} }
	registry["common.RequestDataStream"] = func() mavlink2.Message { return &common.RequestDataStream{} }
	registry["common.DataStream"] = func() mavlink2.Message { return &common.DataStream{} }
	registry["common.ManualControl"] = func() mavlink2.Message { return &common.ManualControl{} }
	registry["common.RCChannelsOverrIDe"] = func() mavlink2.Message { return &common.RCChannelsOverrIDe{} }
	registry["common.MissionItemInt"] = func() mavlink2.Message { return &common.MissionItemInt{} }
	registry["common.VFRHUD"] = func() mavlink2.Message { return &common.VFRHUD{} }
	registry["common.CommandInt"] = func() mavlink2.Message { return &common.CommandInt{} }
	registry["common.CommandLong"] = func() mavlink2.Message { return &common.CommandLong{} }
	registry["common.CommandAck"] = func() mavlink2.Message { return &common.CommandAck{} }
	registry["common.ManualSetpoint"] = func() mavlink2.Message { return &common.ManualSetpoint{} }
	registry["common.SetAttitudeTarget"] = func() mavlink2.Message { return &common.SetAttitudeTarget{} }
	registry["common.AttitudeTarget"] = func() mavlink2.Message { return &common.AttitudeTarget{} }
	registry["common.SetPositionTargetLocalNed"] = func() mavlink2.Message { return &common.SetPositionTargetLocalNed{} }
	registry["common.PositionTargetLocalNed"] = func() mavlink2.Message { return &common.PositionTargetLocalNed{} }
	registry["common.SetPositionTargetGlobalInt"] = func() mavlink2.Message { return &common.SetPositionTargetGlobalInt{} }
	registry["common.PositionTargetGlobalInt"] = func() mavlink2.Message { return &common.PositionTargetGlobalInt{} }
	registry["common.LocalPositionNedSystemGlobalOffset"] = func() mavlink2.Message { return &common.LocalPositionNedSystemGlobalOffset{} }
	registry["common.HilState"] = func() mavlink2.Message { return &common.HilState{} }
	registry["common.HilControls"] = func() mavlink2.Message { return &common.HilControls{} }
	registry["common.HilRCInputsRaw"] = func() mavlink2.Message { return &common.HilRCInputsRaw{} }
	registry["common.HilActuatorControls"] = func() mavlink2.Message { return &common.HilActuatorControls{} }
	registry["common.OpticalFlow"] = func() mavlink2.Message { return &common.OpticalFlow{} }
	registry["common.GlobalVisionPositionEstimate"] = func() mavlink2.Message { return &common.GlobalVisionPositionEstimate{} }
	registry["common.VisionPositionEstimate"] = func() mavlink2.Message { return &common.VisionPositionEstimate{} }
	registry["common.VisionSpeedEstimate"] = func() mavlink2.Message { return &common.VisionSpeedEstimate{} }
	registry["common.ViconPositionEstimate"] = func() mavlink2.Message { return &common.ViconPositionEstimate{} }
	registry["common.HighresIMU"] = func() mavlink2.Message { return &common.HighresIMU{} }
	registry["common.OpticalFlowRad"] = func() mavlink2.Message { return &common.OpticalFlowRad{} }
	registry["common.HilSensor"] = func() mavlink2.Message { return &common.HilSensor{} }
	registry["common.SimState"] = func() mavlink2.Message { return &common.SimState{} }
	registry["common.RadioStatus"] = func() mavlink2.Message { return &common.RadioStatus{} }
	registry["common.FileTransferProtocol"] = func() mavlink2.Message { return &common.FileTransferProtocol{} }
	registry["common.Timesync"] = func() mavlink2.Message { return &common.Timesync{} }
	registry["common.CameraTrigger"] = func() mavlink2.Message { return &common.CameraTrigger{} }
	registry["common.HilGPS"] = func() mavlink2.Message { return &common.HilGPS{} }
	registry["common.HilOpticalFlow"] = func() mavlink2.Message { return &common.HilOpticalFlow{} }
	registry["common.HilStateQuaternion"] = func() mavlink2.Message { return &common.HilStateQuaternion{} }
	registry["common.ScaledIMU2"] = func() mavlink2.Message { return &common.ScaledIMU2{} }
	registry["common.LogRequestList"] = func() mavlink2.Message { return &common.LogRequestList{} }
	registry["common.LogEntry"] = func() mavlink2.Message { return &common.LogEntry{} }
	registry["common.LogRequestData"] = func() mavlink2.Message { return &common.LogRequestData{} }
	registry["common.LogData"] = func() mavlink2.Message { return &common.LogData{} }
	registry["common.LogErase"] = func() mavlink2.Message { return &common.LogErase{} }
	registry["common.LogRequestEnd"] = func() mavlink2.Message { return &common.LogRequestEnd{} }
	registry["common.GPSInjectData"] = func() mavlink2.Message { return &common.GPSInjectData{} }
	registry["common.GPS2Raw"] = func() mavlink2.Message { return &common.GPS2Raw{} }
	registry["common.PowerStatus"] = func() mavlink2.Message { return &common.PowerStatus{} }
	registry["common.SerialControl"] = func() mavlink2.Message { return &common.SerialControl{} }
	registry["common.GPSRtk"] = func() mavlink2.Message { return &common.GPSRtk{} }
	registry["common.GPS2Rtk"] = func() mavlink2.Message { return &common.GPS2Rtk{} }
	registry["common.ScaledIMU3"] = func() mavlink2.Message { return &common.ScaledIMU3{} }
	registry["common.DataTransmissionHandshake"] = func() mavlink2.Message { return &common.DataTransmissionHandshake{} }
	registry["common.EncapsulatedData"] = func() mavlink2.Message { return &common.EncapsulatedData{} }
	registry["common.DistanceSensor"] = func() mavlink2.Message { return &common.DistanceSensor{} }
	registry["common.TerrainRequest"] = func() mavlink2.Message { return &common.TerrainRequest{} }
	registry["common.TerrainData"] = func() mavlink2.Message { return &common.TerrainData{} }
	registry["common.TerrainCheck"] = func() mavlink2.Message { return &common.TerrainCheck{} }
	registry["common.TerrainReport"] = func() mavlink2.Message { return &common.TerrainReport{} }
	registry["common.ScaledPressure2"] = func() mavlink2.Message { return &common.ScaledPressure2{} }
	registry["common.AttPosMocap"] = func() mavlink2.Message { return &common.AttPosMocap{} }
	registry["common.SetActuatorControlTarget"] = func() mavlink2.Message { return &common.SetActuatorControlTarget{} }
	registry["common.ActuatorControlTarget"] = func() mavlink2.Message { return &common.ActuatorControlTarget{} }
	registry["common.Altitude"] = func() mavlink2.Message { return &common.Altitude{} }
	registry["common.ResouRCeRequest"] = func() mavlink2.Message { return &common.ResouRCeRequest{} }
	registry["common.ScaledPressure3"] = func() mavlink2.Message { return &common.ScaledPressure3{} }
	registry["common.FollowTarget"] = func() mavlink2.Message { return &common.FollowTarget{} }
	registry["common.ControlSystemState"] = func() mavlink2.Message { return &common.ControlSystemState{} }
	registry["common.BatteryStatus"] = func() mavlink2.Message { return &common.BatteryStatus{} }
	registry["common.AutopilotVersion"] = func() mavlink2.Message { return &common.AutopilotVersion{} }
	registry["common.LandingTarget"] = func() mavlink2.Message { return &common.LandingTarget{} }
	registry["common.FenceStatus"] = func() mavlink2.Message { return &common.FenceStatus{} }
	registry["common.EstimatorStatus"] = func() mavlink2.Message { return &common.EstimatorStatus{} }
	registry["common.WindCov"] = func() mavlink2.Message { return &common.WindCov{} }
	registry["common.GPSInput"] = func() mavlink2.Message { return &common.GPSInput{} }
	registry["common.GPSRtcmData"] = func() mavlink2.Message { return &common.GPSRtcmData{} }
	registry["common.HighLatency"] = func() mavlink2.Message { return &common.HighLatency{} }
	registry["common.HighLatency2"] = func() mavlink2.Message { return &common.HighLatency2{} }
	registry["common.Vibration"] = func() mavlink2.Message { return &common.Vibration{} }
	registry["common.HomePosition"] = func() mavlink2.Message { return &common.HomePosition{} }
	registry["common.SetHomePosition"] = func() mavlink2.Message { return &common.SetHomePosition{} }
	registry["common.MessageInterval"] = func() mavlink2.Message { return &common.MessageInterval{} }
	registry["common.ExtendedSysState"] = func() mavlink2.Message { return &common.ExtendedSysState{} }
	registry["common.AdsbVehicle"] = func() mavlink2.Message { return &common.AdsbVehicle{} }
	registry["common.Collision"] = func() mavlink2.Message { return &common.Collision{} }
	registry["common.V2Extension"] = func() mavlink2.Message { return &common.V2Extension{} }
	registry["common.MemoryVect"] = func() mavlink2.Message { return &common.MemoryVect{} }
	registry["common.DebugVect"] = func() mavlink2.Message { return &common.DebugVect{} }
	registry["common.NamedValueFloat"] = func() mavlink2.Message { return &common.NamedValueFloat{} }
	registry["common.NamedValueInt"] = func() mavlink2.Message { return &common.NamedValueInt{} }
	registry["common.Statustext"] = func() mavlink2.Message { return &common.Statustext{} }
	registry["common.Debug"] = func() mavlink2.Message { return &common.Debug{} }
	registry["common.SetupSigning"] = func() mavlink2.Message { return &common.SetupSigning{} }
	registry["common.ButtonChange"] = func() mavlink2.Message { return &common.ButtonChange{} }
	registry["common.PlayTune"] = func() mavlink2.Message { return &common.PlayTune{} }
	registry["common.CameraInformation"] = func() mavlink2.Message { return &common.CameraInformation{} }
	registry["common.CameraSettings"] = func() mavlink2.Message { return &common.CameraSettings{} }
	registry["common.StorageInformation"] = func() mavlink2.Message { return &common.StorageInformation{} }
	registry["common.CameraCaptureStatus"] = func() mavlink2.Message { return &common.CameraCaptureStatus{} }
	registry["common.CameraImageCaptured"] = func() mavlink2.Message { return &common.CameraImageCaptured{} }
	registry["common.FlightInformation"] = func() mavlink2.Message { return &common.FlightInformation{} }
	registry["common.MountOrientation"] = func() mavlink2.Message { return &common.MountOrientation{} }
	registry["common.LoggingData"] = func() mavlink2.Message { return &common.LoggingData{} }
	registry["common.LoggingDataAcked"] = func() mavlink2.Message { return &common.LoggingDataAcked{} }
	registry["common.LoggingAck"] = func() mavlink2.Message { return &common.LoggingAck{} }
	registry["common.VIDeoStreamInformation"] = func() mavlink2.Message { return &common.VIDeoStreamInformation{} }
	registry["common.VIDeoStreamStatus"] = func() mavlink2.Message { return &common.VIDeoStreamStatus{} }
	registry["common.WifiConfigAp"] = func() mavlink2.Message { return &common.WifiConfigAp{} }
	registry["common.ProtocolVersion"] = func() mavlink2.Message { return &common.ProtocolVersion{} }
	registry["common.AisVessel"] = func() mavlink2.Message { return &common.AisVessel{} }
	registry["common.UavcanNodeStatus"] = func() mavlink2.Message { return &common.UavcanNodeStatus{} }
	registry["common.UavcanNodeInfo"] = func() mavlink2.Message { return &common.UavcanNodeInfo{} }
	registry["common.ParamExtRequestRead"] = func() mavlink2.Message { return &common.ParamExtRequestRead{} }
	registry["common.ParamExtRequestList"] = func() mavlink2.Message { return &common.ParamExtRequestList{} }
	registry["common.ParamExtValue"] = func() mavlink2.Message { return &common.ParamExtValue{} }
	registry["common.ParamExtSet"] = func() mavlink2.Message { return &common.ParamExtSet{} }
	registry["common.ParamExtAck"] = func() mavlink2.Message { return &common.ParamExtAck{} }
	registry["common.ObstacleDistance"] = func() mavlink2.Message { return &common.ObstacleDistance{} }
	registry["common.Odometry"] = func() mavlink2.Message { return &common.Odometry{} }
	registry["common.TrajectoryRepresentationWaypoints"] = func() mavlink2.Message { return &common.TrajectoryRepresentationWaypoints{} }
	registry["common.TrajectoryRepresentationBezier"] = func() mavlink2.Message { return &common.TrajectoryRepresentationBezier{} }
	registry["common.CellularStatus"] = func() mavlink2.Message { return &common.CellularStatus{} }
	registry["common.IsbdLinkStatus"] = func() mavlink2.Message { return &common.IsbdLinkStatus{} }
	registry["common.UtmGlobalPosition"] = func() mavlink2.Message { return &common.UtmGlobalPosition{} }
	registry["common.DebugFloatArray"] = func() mavlink2.Message { return &common.DebugFloatArray{} }
	registry["common.OrbitExecutionStatus"] = func() mavlink2.Message { return &common.OrbitExecutionStatus{} }
	registry["common.StatustextLong"] = func() mavlink2.Message { return &common.StatustextLong{} }
	registry["common.SmartBatteryInfo"] = func() mavlink2.Message { return &common.SmartBatteryInfo{} }
	registry["common.SmartBatteryStatus"] = func() mavlink2.Message { return &common.SmartBatteryStatus{} }
	registry["common.ActuatorOutputStatus"] = func() mavlink2.Message { return &common.ActuatorOutputStatus{} }
	registry["common.TimeEstimateToTarget"] = func() mavlink2.Message { return &common.TimeEstimateToTarget{} }
	registry["common.Tunnel"] = func() mavlink2.Message { return &common.Tunnel{} }
	registry["common.OnboardComputerStatus"] = func() mavlink2.Message { return &common.OnboardComputerStatus{} }
	registry["common.ComponentInformation"] = func() mavlink2.Message { return &common.ComponentInformation{} }
	registry["common.PlayTuneV2"] = func() mavlink2.Message { return &common.PlayTuneV2{} }
	registry["common.SupportedTunes"] = func() mavlink2.Message { return &common.SupportedTunes{} }
	registry["common.WheelDistance"] = func() mavlink2.Message { return &common.WheelDistance{} }
	registry["common.OpenDroneIDBasicID"] = func() mavlink2.Message { return &common.OpenDroneIDBasicID{} }
	registry["common.OpenDroneIDLocation"] = func() mavlink2.Message { return &common.OpenDroneIDLocation{} }
	registry["common.OpenDroneIDAuthentication"] = func() mavlink2.Message { return &common.OpenDroneIDAuthentication{} }
	registry["common.OpenDroneIDSelfID"] = func() mavlink2.Message { return &common.OpenDroneIDSelfID{} }
	registry["common.OpenDroneIDSystem"] = func() mavlink2.Message { return &common.OpenDroneIDSystem{} }
	registry["common.OpenDroneIDOperatorID"] = func() mavlink2.Message { return &common.OpenDroneIDOperatorID{} }
	registry["common.OpenDroneIDMessagePack"] = func() mavlink2.Message { return &common.OpenDroneIDMessagePack{} }
	registry["ardupilotmega.SensorOffsets"] = func() mavlink2.Message { return &ardupilotmega.SensorOffsets{} }
	registry["ardupilotmega.SetMagOffsets"] = func() mavlink2.Message { return &ardupilotmega.SetMagOffsets{} }
	registry["ardupilotmega.MemInfo"] = func() mavlink2.Message { return &ardupilotmega.MemInfo{} }
	registry["ardupilotmega.ApAdc"] = func() mavlink2.Message { return &ardupilotmega.ApAdc{} }
	registry["ardupilotmega.DigicamConfigure"] = func() mavlink2.Message { return &ardupilotmega.DigicamConfigure{} }
	registry["ardupilotmega.DigicamControl"] = func() mavlink2.Message { return &ardupilotmega.DigicamControl{} }
	registry["ardupilotmega.MountConfigure"] = func() mavlink2.Message { return &ardupilotmega.MountConfigure{} }
	registry["ardupilotmega.MountControl"] = func() mavlink2.Message { return &ardupilotmega.MountControl{} }
	registry["ardupilotmega.MountStatus"] = func() mavlink2.Message { return &ardupilotmega.MountStatus{} }
	registry["ardupilotmega.FencePoint"] = func() mavlink2.Message { return &ardupilotmega.FencePoint{} }
	registry["ardupilotmega.FenceFetchPoint"] = func() mavlink2.Message { return &ardupilotmega.FenceFetchPoint{} }
	registry["ardupilotmega.AHRS"] = func() mavlink2.Message { return &ardupilotmega.AHRS{} }
	registry["ardupilotmega.SimState"] = func() mavlink2.Message { return &ardupilotmega.SimState{} }
	registry["ardupilotmega.HWstatus"] = func() mavlink2.Message { return &ardupilotmega.HWstatus{} }
	registry["ardupilotmega.Radio"] = func() mavlink2.Message { return &ardupilotmega.Radio{} }
	registry["ardupilotmega.LimitsStatus"] = func() mavlink2.Message { return &ardupilotmega.LimitsStatus{} }
	registry["ardupilotmega.Wind"] = func() mavlink2.Message { return &ardupilotmega.Wind{} }
	registry["ardupilotmega.Data16"] = func() mavlink2.Message { return &ardupilotmega.Data16{} }
	registry["ardupilotmega.Data32"] = func() mavlink2.Message { return &ardupilotmega.Data32{} }
	registry["ardupilotmega.Data64"] = func() mavlink2.Message { return &ardupilotmega.Data64{} }
	registry["ardupilotmega.Data96"] = func() mavlink2.Message { return &ardupilotmega.Data96{} }
	registry["ardupilotmega.Rangefinder"] = func() mavlink2.Message { return &ardupilotmega.Rangefinder{} }
	registry["ardupilotmega.AirspeedAutocal"] = func() mavlink2.Message { return &ardupilotmega.AirspeedAutocal{} }
	registry["ardupilotmega.RallyPoint"] = func() mavlink2.Message { return &ardupilotmega.RallyPoint{} }
	registry["ardupilotmega.RallyFetchPoint"] = func() mavlink2.Message { return &ardupilotmega.RallyFetchPoint{} }
	registry["ardupilotmega.CompassmotStatus"] = func() mavlink2.Message { return &ardupilotmega.CompassmotStatus{} }
	registry["ardupilotmega.AHRS2"] = func() mavlink2.Message { return &ardupilotmega.AHRS2{} }
	registry["ardupilotmega.CameraStatus"] = func() mavlink2.Message { return &ardupilotmega.CameraStatus{} }
	registry["ardupilotmega.CameraFeedback"] = func() mavlink2.Message { return &ardupilotmega.CameraFeedback{} }
	registry["ardupilotmega.Battery2"] = func() mavlink2.Message { return &ardupilotmega.Battery2{} }
	registry["ardupilotmega.AHRS3"] = func() mavlink2.Message { return &ardupilotmega.AHRS3{} }
	registry["ardupilotmega.AutopilotVersionRequest"] = func() mavlink2.Message { return &ardupilotmega.AutopilotVersionRequest{} }
	registry["ardupilotmega.RemoteLogDataBlock"] = func() mavlink2.Message { return &ardupilotmega.RemoteLogDataBlock{} }
	registry["ardupilotmega.RemoteLogBlockStatus"] = func() mavlink2.Message { return &ardupilotmega.RemoteLogBlockStatus{} }
	registry["ardupilotmega.LedControl"] = func() mavlink2.Message { return &ardupilotmega.LedControl{} }
	registry["ardupilotmega.MagCalProgress"] = func() mavlink2.Message { return &ardupilotmega.MagCalProgress{} }
	registry["ardupilotmega.MagCalReport"] = func() mavlink2.Message { return &ardupilotmega.MagCalReport{} }
	registry["ardupilotmega.EKFStatusReport"] = func() mavlink2.Message { return &ardupilotmega.EKFStatusReport{} }
	registry["ardupilotmega.PIDTuning"] = func() mavlink2.Message { return &ardupilotmega.PIDTuning{} }
	registry["ardupilotmega.Deepstall"] = func() mavlink2.Message { return &ardupilotmega.Deepstall{} }
	registry["ardupilotmega.GimbalReport"] = func() mavlink2.Message { return &ardupilotmega.GimbalReport{} }
	registry["ardupilotmega.GimbalControl"] = func() mavlink2.Message { return &ardupilotmega.GimbalControl{} }
	registry["ardupilotmega.GimbalTorqueCmdReport"] = func() mavlink2.Message { return &ardupilotmega.GimbalTorqueCmdReport{} }
	registry["ardupilotmega.GoproHeartbeat"] = func() mavlink2.Message { return &ardupilotmega.GoproHeartbeat{} }
	registry["ardupilotmega.GoproGetRequest"] = func() mavlink2.Message { return &ardupilotmega.GoproGetRequest{} }
	registry["ardupilotmega.GoproGetResponse"] = func() mavlink2.Message { return &ardupilotmega.GoproGetResponse{} }
	registry["ardupilotmega.GoproSetRequest"] = func() mavlink2.Message { return &ardupilotmega.GoproSetRequest{} }
	registry["ardupilotmega.GoproSetResponse"] = func() mavlink2.Message { return &ardupilotmega.GoproSetResponse{} }
	registry["ardupilotmega.EfiStatus"] = func() mavlink2.Message { return &ardupilotmega.EfiStatus{} }
	registry["ardupilotmega.Rpm"] = func() mavlink2.Message { return &ardupilotmega.Rpm{} }
	registry["ardupilotmega.DeviceOpRead"] = func() mavlink2.Message { return &ardupilotmega.DeviceOpRead{} }
	registry["ardupilotmega.DeviceOpReadReply"] = func() mavlink2.Message { return &ardupilotmega.DeviceOpReadReply{} }
	registry["ardupilotmega.DeviceOpWrite"] = func() mavlink2.Message { return &ardupilotmega.DeviceOpWrite{} }
	registry["ardupilotmega.DeviceOpWriteReply"] = func() mavlink2.Message { return &ardupilotmega.DeviceOpWriteReply{} }
	registry["ardupilotmega.AdapTuning"] = func() mavlink2.Message { return &ardupilotmega.AdapTuning{} }
	registry["ardupilotmega.VisionPositionDelta"] = func() mavlink2.Message { return &ardupilotmega.VisionPositionDelta{} }
	registry["ardupilotmega.AoaSsa"] = func() mavlink2.Message { return &ardupilotmega.AoaSsa{} }
	registry["ardupilotmega.EscTelemetry1To4"] = func() mavlink2.Message { return &ardupilotmega.EscTelemetry1To4{} }
	registry["ardupilotmega.EscTelemetry5To8"] = func() mavlink2.Message { return &ardupilotmega.EscTelemetry5To8{} }
	registry["ardupilotmega.EscTelemetry9To12"] = func() mavlink2.Message { return &ardupilotmega.EscTelemetry9To12{} }
	registry["asluav.CommandIntStamped"] = func() mavlink2.Message { return &asluav.CommandIntStamped{} }
	registry["asluav.CommandLongStamped"] = func() mavlink2.Message { return &asluav.CommandLongStamped{} }
	registry["asluav.SensPower"] = func() mavlink2.Message { return &asluav.SensPower{} }
	registry["asluav.SensMppt"] = func() mavlink2.Message { return &asluav.SensMppt{} }
	registry["asluav.AslctrlData"] = func() mavlink2.Message { return &asluav.AslctrlData{} }
	registry["asluav.AslctrlDebug"] = func() mavlink2.Message { return &asluav.AslctrlDebug{} }
	registry["asluav.AsluavStatus"] = func() mavlink2.Message { return &asluav.AsluavStatus{} }
	registry["asluav.EKFExt"] = func() mavlink2.Message { return &asluav.EKFExt{} }
	registry["asluav.AslObctrl"] = func() mavlink2.Message { return &asluav.AslObctrl{} }
	registry["asluav.SensAtmos"] = func() mavlink2.Message { return &asluav.SensAtmos{} }
	registry["asluav.SensBatmon"] = func() mavlink2.Message { return &asluav.SensBatmon{} }
	registry["asluav.FwSoaringData"] = func() mavlink2.Message { return &asluav.FwSoaringData{} }
	registry["asluav.SensorpodStatus"] = func() mavlink2.Message { return &asluav.SensorpodStatus{} }
	registry["asluav.SensPowerBoard"] = func() mavlink2.Message { return &asluav.SensPowerBoard{} }
	registry["asluav.GsmLinkStatus"] = func() mavlink2.Message { return &asluav.GsmLinkStatus{} }
	registry["autoquad.AqTelemetryF"] = func() mavlink2.Message { return &autoquad.AqTelemetryF{} }
	registry["autoquad.AqEscTelemetry"] = func() mavlink2.Message { return &autoquad.AqEscTelemetry{} }
	registry["icarous.IcarousHeartbeat"] = func() mavlink2.Message { return &icarous.IcarousHeartbeat{} }
	registry["icarous.IcarousKinematicBands"] = func() mavlink2.Message { return &icarous.IcarousKinematicBands{} }
	registry["matrixpilot.FlexifunctionSet"] = func() mavlink2.Message { return &matrixpilot.FlexifunctionSet{} }
	registry["matrixpilot.FlexifunctionReadReq"] = func() mavlink2.Message { return &matrixpilot.FlexifunctionReadReq{} }
	registry["matrixpilot.FlexifunctionBufferFunction"] = func() mavlink2.Message { return &matrixpilot.FlexifunctionBufferFunction{} }
	registry["matrixpilot.FlexifunctionBufferFunctionAck"] = func() mavlink2.Message { return &matrixpilot.FlexifunctionBufferFunctionAck{} }
	registry["matrixpilot.FlexifunctionDirectory"] = func() mavlink2.Message { return &matrixpilot.FlexifunctionDirectory{} }
	registry["matrixpilot.FlexifunctionDirectoryAck"] = func() mavlink2.Message { return &matrixpilot.FlexifunctionDirectoryAck{} }
	registry["matrixpilot.FlexifunctionCommand"] = func() mavlink2.Message { return &matrixpilot.FlexifunctionCommand{} }
	registry["matrixpilot.FlexifunctionCommandAck"] = func() mavlink2.Message { return &matrixpilot.FlexifunctionCommandAck{} }
	registry["matrixpilot.SerialUdbExtraF2A"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF2A{} }
	registry["matrixpilot.SerialUdbExtraF2B"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF2B{} }
	registry["matrixpilot.SerialUdbExtraF4"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF4{} }
	registry["matrixpilot.SerialUdbExtraF5"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF5{} }
	registry["matrixpilot.SerialUdbExtraF6"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF6{} }
	registry["matrixpilot.SerialUdbExtraF7"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF7{} }
	registry["matrixpilot.SerialUdbExtraF8"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF8{} }
	registry["matrixpilot.SerialUdbExtraF13"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF13{} }
	registry["matrixpilot.SerialUdbExtraF14"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF14{} }
	registry["matrixpilot.SerialUdbExtraF15"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF15{} }
	registry["matrixpilot.SerialUdbExtraF16"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF16{} }
	registry["matrixpilot.Altitudes"] = func() mavlink2.Message { return &matrixpilot.Altitudes{} }
	registry["matrixpilot.Airspeeds"] = func() mavlink2.Message { return &matrixpilot.Airspeeds{} }
	registry["matrixpilot.SerialUdbExtraF17"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF17{} }
	registry["matrixpilot.SerialUdbExtraF18"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF18{} }
	registry["matrixpilot.SerialUdbExtraF19"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF19{} }
	registry["matrixpilot.SerialUdbExtraF20"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF20{} }
	registry["matrixpilot.SerialUdbExtraF21"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF21{} }
	registry["matrixpilot.SerialUdbExtraF22"] = func() mavlink2.Message { return &matrixpilot.SerialUdbExtraF22{} }
	registry["paparazzi.ScriptItem"] = func() mavlink2.Message { return &paparazzi.ScriptItem{} }
	registry["paparazzi.ScriptRequest"] = func() mavlink2.Message { return &paparazzi.ScriptRequest{} }
	registry["paparazzi.ScriptRequestList"] = func() mavlink2.Message { return &paparazzi.ScriptRequestList{} }
	registry["paparazzi.ScriptCount"] = func() mavlink2.Message { return &paparazzi.ScriptCount{} }
	registry["paparazzi.ScriptCurrent"] = func() mavlink2.Message { return &paparazzi.ScriptCurrent{} }
	registry["slugs.CpuLoad"] = func() mavlink2.Message { return &slugs.CpuLoad{} }
	registry["slugs.SensorBias"] = func() mavlink2.Message { return &slugs.SensorBias{} }
	registry["slugs.Diagnostic"] = func() mavlink2.Message { return &slugs.Diagnostic{} }
	registry["slugs.SlugsNAVigation"] = func() mavlink2.Message { return &slugs.SlugsNAVigation{} }
	registry["slugs.DataLog"] = func() mavlink2.Message { return &slugs.DataLog{} }
	registry["slugs.GPSDateTime"] = func() mavlink2.Message { return &slugs.GPSDateTime{} }
	registry["slugs.MIDLvlCmds"] = func() mavlink2.Message { return &slugs.MIDLvlCmds{} }
	registry["slugs.CtrlSrfcPt"] = func() mavlink2.Message { return &slugs.CtrlSrfcPt{} }
	registry["slugs.SlugsCameraOrder"] = func() mavlink2.Message { return &slugs.SlugsCameraOrder{} }
	registry["slugs.ControlSurface"] = func() mavlink2.Message { return &slugs.ControlSurface{} }
	registry["slugs.SlugsMobileLocation"] = func() mavlink2.Message { return &slugs.SlugsMobileLocation{} }
	registry["slugs.SlugsConfigurationCamera"] = func() mavlink2.Message { return &slugs.SlugsConfigurationCamera{} }
	registry["slugs.IsrLocation"] = func() mavlink2.Message { return &slugs.IsrLocation{} }
	registry["slugs.VoltSensor"] = func() mavlink2.Message { return &slugs.VoltSensor{} }
	registry["slugs.PtzStatus"] = func() mavlink2.Message { return &slugs.PtzStatus{} }
	registry["slugs.UavStatus"] = func() mavlink2.Message { return &slugs.UavStatus{} }
	registry["slugs.StatusGPS"] = func() mavlink2.Message { return &slugs.StatusGPS{} }
	registry["slugs.NovatelDiag"] = func() mavlink2.Message { return &slugs.NovatelDiag{} }
	registry["slugs.SensorDiag"] = func() mavlink2.Message { return &slugs.SensorDiag{} }
	registry["slugs.Boot"] = func() mavlink2.Message { return &slugs.Boot{} }
	registry["ualberta.NAVFilterBias"] = func() mavlink2.Message { return &ualberta.NAVFilterBias{} }
	registry["ualberta.RadioCalibration"] = func() mavlink2.Message { return &ualberta.RadioCalibration{} }
	registry["ualberta.UalbertaSysStatus"] = func() mavlink2.Message { return &ualberta.UalbertaSysStatus{} }
}
