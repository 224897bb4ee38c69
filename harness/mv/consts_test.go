// Code generated by tools/gen_consts.py; DO NOT EDIT.

//go:build consts

package mv

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/slugs"
	uavionix "github.com/botlink/go-mavlink2/uAvionix"
	"github.com/botlink/go-mavlink2/ualberta"
)

func init() {
	consts["(root).CompatibilityFlagSignature"] = int64(mavlink2.CompatibilityFlagSignature)
	consts["(root).V1StartByte"] = int64(mavlink2.V1StartByte)
	consts["(root).V2StartByte"] = int64(mavlink2.V2StartByte)
	consts["ardupilotmega.AccelcalVehiclePosBack"] = int64(ardupilotmega.AccelcalVehiclePosBack)
	consts["ardupilotmega.AccelcalVehiclePosEnumEnd"] = int64(ardupilotmega.AccelcalVehiclePosEnumEnd)
	consts["ardupilotmega.AccelcalVehiclePosFailed"] = int64(ardupilotmega.AccelcalVehiclePosFailed)
	consts["ardupilotmega.AccelcalVehiclePosLeft"] = int64(ardupilotmega.AccelcalVehiclePosLeft)
	consts["ardupilotmega.AccelcalVehiclePosLevel"] = int64(ardupilotmega.AccelcalVehiclePosLevel)
	consts["ardupilotmega.AccelcalVehiclePosNosedown"] = int64(ardupilotmega.AccelcalVehiclePosNosedown)
	consts["ardupilotmega.AccelcalVehiclePosNoseup"] = int64(ardupilotmega.AccelcalVehiclePosNoseup)
	consts["ardupilotmega.AccelcalVehiclePosRight"] = int64(ardupilotmega.AccelcalVehiclePosRight)
	consts["ardupilotmega.AccelcalVehiclePosSuccess"] = int64(ardupilotmega.AccelcalVehiclePosSuccess)
	consts["ardupilotmega.CameraFeedbackBadexposure"] = int64(ardupilotmega.CameraFeedbackBadexposure)
	consts["ardupilotmega.CameraFeedbackClosedloop"] = int64(ardupilotmega.CameraFeedbackClosedloop)
	consts["ardupilotmega.CameraFeedbackFlagsEnumEnd"] = int64(ardupilotmega.CameraFeedbackFlagsEnumEnd)
	consts["ardupilotmega.CameraFeedbackOpenloop"] = int64(ardupilotmega.CameraFeedbackOpenloop)
	consts["ardupilotmega.CameraFeedbackPhoto"] = int64(ardupilotmega.CameraFeedbackPhoto)
	consts["ardupilotmega.CameraFeedbackVIDeo"] = int64(ardupilotmega.CameraFeedbackVIDeo)
	consts["ardupilotmega.CameraStatusTypeDisconnect"] = int64(ardupilotmega.CameraStatusTypeDisconnect)
	consts["ardupilotmega.CameraStatusTypeError"] = int64(ardupilotmega.CameraStatusTypeError)
	consts["ardupilotmega.CameraStatusTypeHeartbeat"] = int64(ardupilotmega.CameraStatusTypeHeartbeat)
	consts["ardupilotmega.CameraStatusTypeLowbatt"] = int64(ardupilotmega.CameraStatusTypeLowbatt)
	consts["ardupilotmega.CameraStatusTypeLowstore"] = int64(ardupilotmega.CameraStatusTypeLowstore)
	consts["ardupilotmega.CameraStatusTypeLowstorev"] = int64(ardupilotmega.CameraStatusTypeLowstorev)
	consts["ardupilotmega.CameraStatusTypeTrigger"] = int64(ardupilotmega.CameraStatusTypeTrigger)
	consts["ardupilotmega.CameraStatusTypesEnumEnd"] = int64(ardupilotmega.CameraStatusTypesEnumEnd)
	consts["ardupilotmega.CopterModeAcro"] = int64(ardupilotmega.CopterModeAcro)
	consts["ardupilotmega.CopterModeAltHold"] = int64(ardupilotmega.CopterModeAltHold)
	consts["ardupilotmega.CopterModeAuto"] = int64(ardupilotmega.CopterModeAuto)
	consts["ardupilotmega.CopterModeAutotune"] = int64(ardupilotmega.CopterModeAutotune)
	consts["ardupilotmega.CopterModeAvoIDAdsb"] = int64(ardupilotmega.CopterModeAvoIDAdsb)
	consts["ardupilotmega.CopterModeBrake"] = int64(ardupilotmega.CopterModeBrake)
	consts["ardupilotmega.CopterModeCiRCle"] = int64(ardupilotmega.CopterModeCiRCle)
	consts["ardupilotmega.CopterModeDrift"] = int64(ardupilotmega.CopterModeDrift)
	consts["ardupilotmega.CopterModeEnumEnd"] = int64(ardupilotmega.CopterModeEnumEnd)
	consts["ardupilotmega.CopterModeFlip"] = int64(ardupilotmega.CopterModeFlip)
	consts["ardupilotmega.CopterModeGUIDed"] = int64(ardupilotmega.CopterModeGUIDed)
	consts["ardupilotmega.CopterModeGUIDedNoGPS"] = int64(ardupilotmega.CopterModeGUIDedNoGPS)
	consts["ardupilotmega.CopterModeLand"] = int64(ardupilotmega.CopterModeLand)
	consts["ardupilotmega.CopterModeLoiter"] = int64(ardupilotmega.CopterModeLoiter)
	consts["ardupilotmega.CopterModePoshold"] = int64(ardupilotmega.CopterModePoshold)
	consts["ardupilotmega.CopterModeRtl"] = int64(ardupilotmega.CopterModeRtl)
	consts["ardupilotmega.CopterModeSmartRtl"] = int64(ardupilotmega.CopterModeSmartRtl)
	consts["ardupilotmega.CopterModeSport"] = int64(ardupilotmega.CopterModeSport)
	consts["ardupilotmega.CopterModeStabilize"] = int64(ardupilotmega.CopterModeStabilize)
	consts["ardupilotmega.CopterModeThrow"] = int64(ardupilotmega.CopterModeThrow)
	consts["ardupilotmega.DeepstallStageARC"] = int64(ardupilotmega.DeepstallStageARC)
	consts["ardupilotmega.DeepstallStageApproach"] = int64(ardupilotmega.DeepstallStageApproach)
	consts["ardupilotmega.DeepstallStageEnumEnd"] = int64(ardupilotmega.DeepstallStageEnumEnd)
	consts["ardupilotmega.DeepstallStageEstimateWind"] = int64(ardupilotmega.DeepstallStageEstimateWind)
	consts["ardupilotmega.DeepstallStageFlyToARC"] = int64(ardupilotmega.DeepstallStageFlyToARC)
	consts["ardupilotmega.DeepstallStageFlyToLanding"] = int64(ardupilotmega.DeepstallStageFlyToLanding)
	consts["ardupilotmega.DeepstallStageLand"] = int64(ardupilotmega.DeepstallStageLand)
	consts["ardupilotmega.DeepstallStageWaitForBreakout"] = int64(ardupilotmega.DeepstallStageWaitForBreakout)
	consts["ardupilotmega.DeviceOpBustypeEnumEnd"] = int64(ardupilotmega.DeviceOpBustypeEnumEnd)
	consts["ardupilotmega.DeviceOpBustypeI2C"] = int64(ardupilotmega.DeviceOpBustypeI2C)
	consts["ardupilotmega.DeviceOpBustypeSpi"] = int64(ardupilotmega.DeviceOpBustypeSpi)
	consts["ardupilotmega.EKFAttitude"] = int64(ardupilotmega.EKFAttitude)
	consts["ardupilotmega.EKFConstPosMode"] = int64(ardupilotmega.EKFConstPosMode)
	consts["ardupilotmega.EKFPosHorizAbs"] = int64(ardupilotmega.EKFPosHorizAbs)
	consts["ardupilotmega.EKFPosHorizRel"] = int64(ardupilotmega.EKFPosHorizRel)
	consts["ardupilotmega.EKFPosVertAbs"] = int64(ardupilotmega.EKFPosVertAbs)
	consts["ardupilotmega.EKFPosVertAgl"] = int64(ardupilotmega.EKFPosVertAgl)
	consts["ardupilotmega.EKFPredPosHorizAbs"] = int64(ardupilotmega.EKFPredPosHorizAbs)
	consts["ardupilotmega.EKFPredPosHorizRel"] = int64(ardupilotmega.EKFPredPosHorizRel)
	consts["ardupilotmega.EKFStatusFlagsEnumEnd"] = int64(ardupilotmega.EKFStatusFlagsEnumEnd)
	consts["ardupilotmega.EKFVelocityHoriz"] = int64(ardupilotmega.EKFVelocityHoriz)
	consts["ardupilotmega.EKFVelocityVert"] = int64(ardupilotmega.EKFVelocityVert)
	consts["ardupilotmega.FavorableWind"] = int64(ardupilotmega.FavorableWind)
	consts["ardupilotmega.GimbalAxisCalibrationRequiredEnumEnd"] = int64(ardupilotmega.GimbalAxisCalibrationRequiredEnumEnd)
	consts["ardupilotmega.GimbalAxisCalibrationRequiredFalse"] = int64(ardupilotmega.GimbalAxisCalibrationRequiredFalse)
	consts["ardupilotmega.GimbalAxisCalibrationRequiredTrue"] = int64(ardupilotmega.GimbalAxisCalibrationRequiredTrue)
	consts["ardupilotmega.GimbalAxisCalibrationRequiredUnknown"] = int64(ardupilotmega.GimbalAxisCalibrationRequiredUnknown)
	consts["ardupilotmega.GimbalAxisCalibrationStatusEnumEnd"] = int64(ardupilotmega.GimbalAxisCalibrationStatusEnumEnd)
	consts["ardupilotmega.GimbalAxisCalibrationStatusFailed"] = int64(ardupilotmega.GimbalAxisCalibrationStatusFailed)
	consts["ardupilotmega.GimbalAxisCalibrationStatusInProgress"] = int64(ardupilotmega.GimbalAxisCalibrationStatusInProgress)
	consts["ardupilotmega.GimbalAxisCalibrationStatusSucceeded"] = int64(ardupilotmega.GimbalAxisCalibrationStatusSucceeded)
	consts["ardupilotmega.GimbalAxisEnumEnd"] = int64(ardupilotmega.GimbalAxisEnumEnd)
	consts["ardupilotmega.GimbalAxisPitch"] = int64(ardupilotmega.GimbalAxisPitch)
	consts["ardupilotmega.GimbalAxisRoll"] = int64(ardupilotmega.GimbalAxisRoll)
	consts["ardupilotmega.GimbalAxisYaw"] = int64(ardupilotmega.GimbalAxisYaw)
	consts["ardupilotmega.GoproBurstRate10In1Second"] = int64(ardupilotmega.GoproBurstRate10In1Second)
	consts["ardupilotmega.GoproBurstRate10In2Second"] = int64(ardupilotmega.GoproBurstRate10In2Second)
	consts["ardupilotmega.GoproBurstRate10In3Second"] = int64(ardupilotmega.GoproBurstRate10In3Second)
	consts["ardupilotmega.GoproBurstRate30In1Second"] = int64(ardupilotmega.GoproBurstRate30In1Second)
	consts["ardupilotmega.GoproBurstRate30In2Second"] = int64(ardupilotmega.GoproBurstRate30In2Second)
	consts["ardupilotmega.GoproBurstRate30In3Second"] = int64(ardupilotmega.GoproBurstRate30In3Second)
	consts["ardupilotmega.GoproBurstRate30In6Second"] = int64(ardupilotmega.GoproBurstRate30In6Second)
	consts["ardupilotmega.GoproBurstRate3In1Second"] = int64(ardupilotmega.GoproBurstRate3In1Second)
	consts["ardupilotmega.GoproBurstRate5In1Second"] = int64(ardupilotmega.GoproBurstRate5In1Second)
	consts["ardupilotmega.GoproBurstRateEnumEnd"] = int64(ardupilotmega.GoproBurstRateEnumEnd)
	consts["ardupilotmega.GoproCaptureModeBurst"] = int64(ardupilotmega.GoproCaptureModeBurst)
	consts["ardupilotmega.GoproCaptureModeEnumEnd"] = int64(ardupilotmega.GoproCaptureModeEnumEnd)
	consts["ardupilotmega.GoproCaptureModeMultiShot"] = int64(ardupilotmega.GoproCaptureModeMultiShot)
	consts["ardupilotmega.GoproCaptureModePhoto"] = int64(ardupilotmega.GoproCaptureModePhoto)
	consts["ardupilotmega.GoproCaptureModePlayback"] = int64(ardupilotmega.GoproCaptureModePlayback)
	consts["ardupilotmega.GoproCaptureModeSetup"] = int64(ardupilotmega.GoproCaptureModeSetup)
	consts["ardupilotmega.GoproCaptureModeTimeLapse"] = int64(ardupilotmega.GoproCaptureModeTimeLapse)
	consts["ardupilotmega.GoproCaptureModeUnknown"] = int64(ardupilotmega.GoproCaptureModeUnknown)
	consts["ardupilotmega.GoproCaptureModeVIDeo"] = int64(ardupilotmega.GoproCaptureModeVIDeo)
	consts["ardupilotmega.GoproChargingDisabled"] = int64(ardupilotmega.GoproChargingDisabled)
	consts["ardupilotmega.GoproChargingEnabled"] = int64(ardupilotmega.GoproChargingEnabled)
	consts["ardupilotmega.GoproChargingEnumEnd"] = int64(ardupilotmega.GoproChargingEnumEnd)
	consts["ardupilotmega.GoproCommandBattery"] = int64(ardupilotmega.GoproCommandBattery)
	consts["ardupilotmega.GoproCommandCaptureMode"] = int64(ardupilotmega.GoproCommandCaptureMode)
	consts["ardupilotmega.GoproCommandCharging"] = int64(ardupilotmega.GoproCommandCharging)
	consts["ardupilotmega.GoproCommandEnumEnd"] = int64(ardupilotmega.GoproCommandEnumEnd)
	consts["ardupilotmega.GoproCommandLowLight"] = int64(ardupilotmega.GoproCommandLowLight)
	consts["ardupilotmega.GoproCommandModel"] = int64(ardupilotmega.GoproCommandModel)
	consts["ardupilotmega.GoproCommandPhotoBurstRate"] = int64(ardupilotmega.GoproCommandPhotoBurstRate)
	consts["ardupilotmega.GoproCommandPhotoResolution"] = int64(ardupilotmega.GoproCommandPhotoResolution)
	consts["ardupilotmega.GoproCommandPower"] = int64(ardupilotmega.GoproCommandPower)
	consts["ardupilotmega.GoproCommandProtune"] = int64(ardupilotmega.GoproCommandProtune)
	consts["ardupilotmega.GoproCommandProtuneColour"] = int64(ardupilotmega.GoproCommandProtuneColour)
	consts["ardupilotmega.GoproCommandProtuneExposure"] = int64(ardupilotmega.GoproCommandProtuneExposure)
	consts["ardupilotmega.GoproCommandProtuneGain"] = int64(ardupilotmega.GoproCommandProtuneGain)
	consts["ardupilotmega.GoproCommandProtuneSharpness"] = int64(ardupilotmega.GoproCommandProtuneSharpness)
	consts["ardupilotmega.GoproCommandProtuneWhiteBalance"] = int64(ardupilotmega.GoproCommandProtuneWhiteBalance)
	consts["ardupilotmega.GoproCommandShutter"] = int64(ardupilotmega.GoproCommandShutter)
	consts["ardupilotmega.GoproCommandTime"] = int64(ardupilotmega.GoproCommandTime)
	consts["ardupilotmega.GoproCommandVIDeoSettings"] = int64(ardupilotmega.GoproCommandVIDeoSettings)
	consts["ardupilotmega.GoproFieldOfViewEnumEnd"] = int64(ardupilotmega.GoproFieldOfViewEnumEnd)
	consts["ardupilotmega.GoproFieldOfViewMedium"] = int64(ardupilotmega.GoproFieldOfViewMedium)
	consts["ardupilotmega.GoproFieldOfViewNarrow"] = int64(ardupilotmega.GoproFieldOfViewNarrow)
	consts["ardupilotmega.GoproFieldOfViewWIDe"] = int64(ardupilotmega.GoproFieldOfViewWIDe)
	consts["ardupilotmega.GoproFlagRecording"] = int64(ardupilotmega.GoproFlagRecording)
	consts["ardupilotmega.GoproFrameRate100"] = int64(ardupilotmega.GoproFrameRate100)
	consts["ardupilotmega.GoproFrameRate12"] = int64(ardupilotmega.GoproFrameRate12)
	consts["ardupilotmega.GoproFrameRate120"] = int64(ardupilotmega.GoproFrameRate120)
	consts["ardupilotmega.GoproFrameRate125"] = int64(ardupilotmega.GoproFrameRate125)
	consts["ardupilotmega.GoproFrameRate15"] = int64(ardupilotmega.GoproFrameRate15)
	consts["ardupilotmega.GoproFrameRate24"] = int64(ardupilotmega.GoproFrameRate24)
	consts["ardupilotmega.GoproFrameRate240"] = int64(ardupilotmega.GoproFrameRate240)
	consts["ardupilotmega.GoproFrameRate25"] = int64(ardupilotmega.GoproFrameRate25)
	consts["ardupilotmega.GoproFrameRate30"] = int64(ardupilotmega.GoproFrameRate30)
	consts["ardupilotmega.GoproFrameRate48"] = int64(ardupilotmega.GoproFrameRate48)
	consts["ardupilotmega.GoproFrameRate50"] = int64(ardupilotmega.GoproFrameRate50)
	consts["ardupilotmega.GoproFrameRate60"] = int64(ardupilotmega.GoproFrameRate60)
	consts["ardupilotmega.GoproFrameRate80"] = int64(ardupilotmega.GoproFrameRate80)
	consts["ardupilotmega.GoproFrameRate90"] = int64(ardupilotmega.GoproFrameRate90)
	consts["ardupilotmega.GoproFrameRateEnumEnd"] = int64(ardupilotmega.GoproFrameRateEnumEnd)
	consts["ardupilotmega.GoproHeartbeatFlagsEnumEnd"] = int64(ardupilotmega.GoproHeartbeatFlagsEnumEnd)
	consts["ardupilotmega.GoproHeartbeatStatusConnected"] = int64(ardupilotmega.GoproHeartbeatStatusConnected)
	consts["ardupilotmega.GoproHeartbeatStatusDisconnected"] = int64(ardupilotmega.GoproHeartbeatStatusDisconnected)
	consts["ardupilotmega.GoproHeartbeatStatusEnumEnd"] = int64(ardupilotmega.GoproHeartbeatStatusEnumEnd)
	consts["ardupilotmega.GoproHeartbeatStatusError"] = int64(ardupilotmega.GoproHeartbeatStatusError)
	consts["ardupilotmega.GoproHeartbeatStatusIncompatible"] = int64(ardupilotmega.GoproHeartbeatStatusIncompatible)
	consts["ardupilotmega.GoproModelEnumEnd"] = int64(ardupilotmega.GoproModelEnumEnd)
	consts["ardupilotmega.GoproModelHero3PlusBlack"] = int64(ardupilotmega.GoproModelHero3PlusBlack)
	consts["ardupilotmega.GoproModelHero3PlusSilver"] = int64(ardupilotmega.GoproModelHero3PlusSilver)
	consts["ardupilotmega.GoproModelHero4Black"] = int64(ardupilotmega.GoproModelHero4Black)
	consts["ardupilotmega.GoproModelHero4Silver"] = int64(ardupilotmega.GoproModelHero4Silver)
	consts["ardupilotmega.GoproModelUnknown"] = int64(ardupilotmega.GoproModelUnknown)
	consts["ardupilotmega.GoproPhotoResolution10MpWIDe"] = int64(ardupilotmega.GoproPhotoResolution10MpWIDe)
	consts["ardupilotmega.GoproPhotoResolution12MpWIDe"] = int64(ardupilotmega.GoproPhotoResolution12MpWIDe)
	consts["ardupilotmega.GoproPhotoResolution5MpMedium"] = int64(ardupilotmega.GoproPhotoResolution5MpMedium)
	consts["ardupilotmega.GoproPhotoResolution7MpMedium"] = int64(ardupilotmega.GoproPhotoResolution7MpMedium)
	consts["ardupilotmega.GoproPhotoResolution7MpWIDe"] = int64(ardupilotmega.GoproPhotoResolution7MpWIDe)
	consts["ardupilotmega.GoproPhotoResolutionEnumEnd"] = int64(ardupilotmega.GoproPhotoResolutionEnumEnd)
	consts["ardupilotmega.GoproProtuneColourEnumEnd"] = int64(ardupilotmega.GoproProtuneColourEnumEnd)
	consts["ardupilotmega.GoproProtuneColourNeutral"] = int64(ardupilotmega.GoproProtuneColourNeutral)
	consts["ardupilotmega.GoproProtuneColourStandard"] = int64(ardupilotmega.GoproProtuneColourStandard)
	consts["ardupilotmega.GoproProtuneExposureEnumEnd"] = int64(ardupilotmega.GoproProtuneExposureEnumEnd)
	consts["ardupilotmega.GoproProtuneExposureNeg05"] = int64(ardupilotmega.GoproProtuneExposureNeg05)
	consts["ardupilotmega.GoproProtuneExposureNeg10"] = int64(ardupilotmega.GoproProtuneExposureNeg10)
	consts["ardupilotmega.GoproProtuneExposureNeg15"] = int64(ardupilotmega.GoproProtuneExposureNeg15)
	consts["ardupilotmega.GoproProtuneExposureNeg20"] = int64(ardupilotmega.GoproProtuneExposureNeg20)
	consts["ardupilotmega.GoproProtuneExposureNeg25"] = int64(ardupilotmega.GoproProtuneExposureNeg25)
	consts["ardupilotmega.GoproProtuneExposureNeg30"] = int64(ardupilotmega.GoproProtuneExposureNeg30)
	consts["ardupilotmega.GoproProtuneExposureNeg35"] = int64(ardupilotmega.GoproProtuneExposureNeg35)
	consts["ardupilotmega.GoproProtuneExposureNeg40"] = int64(ardupilotmega.GoproProtuneExposureNeg40)
	consts["ardupilotmega.GoproProtuneExposureNeg45"] = int64(ardupilotmega.GoproProtuneExposureNeg45)
	consts["ardupilotmega.GoproProtuneExposureNeg50"] = int64(ardupilotmega.GoproProtuneExposureNeg50)
	consts["ardupilotmega.GoproProtuneExposurePos05"] = int64(ardupilotmega.GoproProtuneExposurePos05)
	consts["ardupilotmega.GoproProtuneExposurePos10"] = int64(ardupilotmega.GoproProtuneExposurePos10)
	consts["ardupilotmega.GoproProtuneExposurePos15"] = int64(ardupilotmega.GoproProtuneExposurePos15)
	consts["ardupilotmega.GoproProtuneExposurePos20"] = int64(ardupilotmega.GoproProtuneExposurePos20)
	consts["ardupilotmega.GoproProtuneExposurePos25"] = int64(ardupilotmega.GoproProtuneExposurePos25)
	consts["ardupilotmega.GoproProtuneExposurePos30"] = int64(ardupilotmega.GoproProtuneExposurePos30)
	consts["ardupilotmega.GoproProtuneExposurePos35"] = int64(ardupilotmega.GoproProtuneExposurePos35)
	consts["ardupilotmega.GoproProtuneExposurePos40"] = int64(ardupilotmega.GoproProtuneExposurePos40)
	consts["ardupilotmega.GoproProtuneExposurePos45"] = int64(ardupilotmega.GoproProtuneExposurePos45)
	consts["ardupilotmega.GoproProtuneExposurePos50"] = int64(ardupilotmega.GoproProtuneExposurePos50)
	consts["ardupilotmega.GoproProtuneExposureZero"] = int64(ardupilotmega.GoproProtuneExposureZero)
	consts["ardupilotmega.GoproProtuneGain1600"] = int64(ardupilotmega.GoproProtuneGain1600)
	consts["ardupilotmega.GoproProtuneGain3200"] = int64(ardupilotmega.GoproProtuneGain3200)
	consts["ardupilotmega.GoproProtuneGain400"] = int64(ardupilotmega.GoproProtuneGain400)
	consts["ardupilotmega.GoproProtuneGain6400"] = int64(ardupilotmega.GoproProtuneGain6400)
	consts["ardupilotmega.GoproProtuneGain800"] = int64(ardupilotmega.GoproProtuneGain800)
	consts["ardupilotmega.GoproProtuneGainEnumEnd"] = int64(ardupilotmega.GoproProtuneGainEnumEnd)
	consts["ardupilotmega.GoproProtuneSharpnessEnumEnd"] = int64(ardupilotmega.GoproProtuneSharpnessEnumEnd)
	consts["ardupilotmega.GoproProtuneSharpnessHigh"] = int64(ardupilotmega.GoproProtuneSharpnessHigh)
	consts["ardupilotmega.GoproProtuneSharpnessLow"] = int64(ardupilotmega.GoproProtuneSharpnessLow)
	consts["ardupilotmega.GoproProtuneSharpnessMedium"] = int64(ardupilotmega.GoproProtuneSharpnessMedium)
	consts["ardupilotmega.GoproProtuneWhiteBalance3000K"] = int64(ardupilotmega.GoproProtuneWhiteBalance3000K)
	consts["ardupilotmega.GoproProtuneWhiteBalance5500K"] = int64(ardupilotmega.GoproProtuneWhiteBalance5500K)
	consts["ardupilotmega.GoproProtuneWhiteBalance6500K"] = int64(ardupilotmega.GoproProtuneWhiteBalance6500K)
	consts["ardupilotmega.GoproProtuneWhiteBalanceAuto"] = int64(ardupilotmega.GoproProtuneWhiteBalanceAuto)
	consts["ardupilotmega.GoproProtuneWhiteBalanceEnumEnd"] = int64(ardupilotmega.GoproProtuneWhiteBalanceEnumEnd)
	consts["ardupilotmega.GoproProtuneWhiteBalanceRaw"] = int64(ardupilotmega.GoproProtuneWhiteBalanceRaw)
	consts["ardupilotmega.GoproRequestFailed"] = int64(ardupilotmega.GoproRequestFailed)
	consts["ardupilotmega.GoproRequestStatusEnumEnd"] = int64(ardupilotmega.GoproRequestStatusEnumEnd)
	consts["ardupilotmega.GoproRequestSuccess"] = int64(ardupilotmega.GoproRequestSuccess)
	consts["ardupilotmega.GoproResolution1080P"] = int64(ardupilotmega.GoproResolution1080P)
	consts["ardupilotmega.GoproResolution1080PSuperview"] = int64(ardupilotmega.GoproResolution1080PSuperview)
	consts["ardupilotmega.GoproResolution1440P"] = int64(ardupilotmega.GoproResolution1440P)
	consts["ardupilotmega.GoproResolution27K169"] = int64(ardupilotmega.GoproResolution27K169)
	consts["ardupilotmega.GoproResolution27K179"] = int64(ardupilotmega.GoproResolution27K179)
	consts["ardupilotmega.GoproResolution27K43"] = int64(ardupilotmega.GoproResolution27K43)
	consts["ardupilotmega.GoproResolution27KSuperview"] = int64(ardupilotmega.GoproResolution27KSuperview)
	consts["ardupilotmega.GoproResolution480P"] = int64(ardupilotmega.GoproResolution480P)
	consts["ardupilotmega.GoproResolution4K169"] = int64(ardupilotmega.GoproResolution4K169)
	consts["ardupilotmega.GoproResolution4K179"] = int64(ardupilotmega.GoproResolution4K179)
	consts["ardupilotmega.GoproResolution4KSuperview"] = int64(ardupilotmega.GoproResolution4KSuperview)
	consts["ardupilotmega.GoproResolution720P"] = int64(ardupilotmega.GoproResolution720P)
	consts["ardupilotmega.GoproResolution720PSuperview"] = int64(ardupilotmega.GoproResolution720PSuperview)
	consts["ardupilotmega.GoproResolution960P"] = int64(ardupilotmega.GoproResolution960P)
	consts["ardupilotmega.GoproResolutionEnumEnd"] = int64(ardupilotmega.GoproResolutionEnumEnd)
	consts["ardupilotmega.GoproVIDeoSettingsFlagsEnumEnd"] = int64(ardupilotmega.GoproVIDeoSettingsFlagsEnumEnd)
	consts["ardupilotmega.GoproVIDeoSettingsTvMode"] = int64(ardupilotmega.GoproVIDeoSettingsTvMode)
	consts["ardupilotmega.GripperActionGrab"] = int64(ardupilotmega.GripperActionGrab)
	consts["ardupilotmega.GripperActionRelease"] = int64(ardupilotmega.GripperActionRelease)
	consts["ardupilotmega.GripperActionsEnumEnd"] = int64(ardupilotmega.GripperActionsEnumEnd)
	consts["ardupilotmega.LandImmediately"] = int64(ardupilotmega.LandImmediately)
	consts["ardupilotmega.LedControlPatternCustom"] = int64(ardupilotmega.LedControlPatternCustom)
	consts["ardupilotmega.LedControlPatternEnumEnd"] = int64(ardupilotmega.LedControlPatternEnumEnd)
	consts["ardupilotmega.LedControlPatternFirmwareupdate"] = int64(ardupilotmega.LedControlPatternFirmwareupdate)
	consts["ardupilotmega.LedControlPatternOff"] = int64(ardupilotmega.LedControlPatternOff)
	consts["ardupilotmega.LimitAltitude"] = int64(ardupilotmega.LimitAltitude)
	consts["ardupilotmega.LimitGPSlock"] = int64(ardupilotmega.LimitGPSlock)
	consts["ardupilotmega.LimitGeofence"] = int64(ardupilotmega.LimitGeofence)
	consts["ardupilotmega.LimitModuleEnumEnd"] = int64(ardupilotmega.LimitModuleEnumEnd)
	consts["ardupilotmega.LimitsDisabled"] = int64(ardupilotmega.LimitsDisabled)
	consts["ardupilotmega.LimitsEnabled"] = int64(ardupilotmega.LimitsEnabled)
	consts["ardupilotmega.LimitsInit"] = int64(ardupilotmega.LimitsInit)
	consts["ardupilotmega.LimitsRecovered"] = int64(ardupilotmega.LimitsRecovered)
	consts["ardupilotmega.LimitsRecovering"] = int64(ardupilotmega.LimitsRecovering)
	consts["ardupilotmega.LimitsStateEnumEnd"] = int64(ardupilotmega.LimitsStateEnumEnd)
	consts["ardupilotmega.LimitsTriggered"] = int64(ardupilotmega.LimitsTriggered)
	consts["ardupilotmega.MagCalBadOrientation"] = int64(ardupilotmega.MagCalBadOrientation)
	consts["ardupilotmega.MagCalBadRadius"] = int64(ardupilotmega.MagCalBadRadius)
	consts["ardupilotmega.MagCalFailed"] = int64(ardupilotmega.MagCalFailed)
	consts["ardupilotmega.MagCalNotStarted"] = int64(ardupilotmega.MagCalNotStarted)
	consts["ardupilotmega.MagCalRunningStepOne"] = int64(ardupilotmega.MagCalRunningStepOne)
	consts["ardupilotmega.MagCalRunningStepTwo"] = int64(ardupilotmega.MagCalRunningStepTwo)
	consts["ardupilotmega.MagCalStatusEnumEnd"] = int64(ardupilotmega.MagCalStatusEnumEnd)
	consts["ardupilotmega.MagCalSuccess"] = int64(ardupilotmega.MagCalSuccess)
	consts["ardupilotmega.MagCalWaitingToStart"] = int64(ardupilotmega.MagCalWaitingToStart)
	consts["ardupilotmega.MavCmdAccelcalVehiclePos"] = int64(ardupilotmega.MavCmdAccelcalVehiclePos)
	consts["ardupilotmega.MavCmdAirframeConfiguration"] = int64(ardupilotmega.MavCmdAirframeConfiguration)
	consts["ardupilotmega.MavCmdArmAuthorizationRequest"] = int64(ardupilotmega.MavCmdArmAuthorizationRequest)
	consts["ardupilotmega.MavCmdBatteryReset"] = int64(ardupilotmega.MavCmdBatteryReset)
	consts["ardupilotmega.MavCmdComponentArmDisarm"] = int64(ardupilotmega.MavCmdComponentArmDisarm)
	consts["ardupilotmega.MavCmdConditionChangeAlt"] = int64(ardupilotmega.MavCmdConditionChangeAlt)
	consts["ardupilotmega.MavCmdConditionDelay"] = int64(ardupilotmega.MavCmdConditionDelay)
	consts["ardupilotmega.MavCmdConditionDistance"] = int64(ardupilotmega.MavCmdConditionDistance)
	consts["ardupilotmega.MavCmdConditionGate"] = int64(ardupilotmega.MavCmdConditionGate)
	consts["ardupilotmega.MavCmdConditionLast"] = int64(ardupilotmega.MavCmdConditionLast)
	consts["ardupilotmega.MavCmdConditionYaw"] = int64(ardupilotmega.MavCmdConditionYaw)
	consts["ardupilotmega.MavCmdControlHighLatency"] = int64(ardupilotmega.MavCmdControlHighLatency)
	consts["ardupilotmega.MavCmdDoAcceptMagCal"] = int64(ardupilotmega.MavCmdDoAcceptMagCal)
	consts["ardupilotmega.MavCmdDoAutotuneEnable"] = int64(ardupilotmega.MavCmdDoAutotuneEnable)
	consts["ardupilotmega.MavCmdDoCancelMagCal"] = int64(ardupilotmega.MavCmdDoCancelMagCal)
	consts["ardupilotmega.MavCmdDoChangeAltitude"] = int64(ardupilotmega.MavCmdDoChangeAltitude)
	consts["ardupilotmega.MavCmdDoChangeSpeed"] = int64(ardupilotmega.MavCmdDoChangeSpeed)
	consts["ardupilotmega.MavCmdDoControlVIDeo"] = int64(ardupilotmega.MavCmdDoControlVIDeo)
	consts["ardupilotmega.MavCmdDoDigicamConfigure"] = int64(ardupilotmega.MavCmdDoDigicamConfigure)
	consts["ardupilotmega.MavCmdDoDigicamControl"] = int64(ardupilotmega.MavCmdDoDigicamControl)
	consts["ardupilotmega.MavCmdDoEngineControl"] = int64(ardupilotmega.MavCmdDoEngineControl)
	consts["ardupilotmega.MavCmdDoFenceEnable"] = int64(ardupilotmega.MavCmdDoFenceEnable)
	consts["ardupilotmega.MavCmdDoFlighttermination"] = int64(ardupilotmega.MavCmdDoFlighttermination)
	consts["ardupilotmega.MavCmdDoFollow"] = int64(ardupilotmega.MavCmdDoFollow)
	consts["ardupilotmega.MavCmdDoFollowReposition"] = int64(ardupilotmega.MavCmdDoFollowReposition)
	consts["ardupilotmega.MavCmdDoGUIDedLimits"] = int64(ardupilotmega.MavCmdDoGUIDedLimits)
	consts["ardupilotmega.MavCmdDoGUIDedMaster"] = int64(ardupilotmega.MavCmdDoGUIDedMaster)
	consts["ardupilotmega.MavCmdDoGoAround"] = int64(ardupilotmega.MavCmdDoGoAround)
	consts["ardupilotmega.MavCmdDoGripper"] = int64(ardupilotmega.MavCmdDoGripper)
	consts["ardupilotmega.MavCmdDoInvertedFlight"] = int64(ardupilotmega.MavCmdDoInvertedFlight)
	consts["ardupilotmega.MavCmdDoJump"] = int64(ardupilotmega.MavCmdDoJump)
	consts["ardupilotmega.MavCmdDoJumpTag"] = int64(ardupilotmega.MavCmdDoJumpTag)
	consts["ardupilotmega.MavCmdDoLandStart"] = int64(ardupilotmega.MavCmdDoLandStart)
	consts["ardupilotmega.MavCmdDoLast"] = int64(ardupilotmega.MavCmdDoLast)
	consts["ardupilotmega.MavCmdDoMotorTest"] = int64(ardupilotmega.MavCmdDoMotorTest)
	consts["ardupilotmega.MavCmdDoMountConfigure"] = int64(ardupilotmega.MavCmdDoMountConfigure)
	consts["ardupilotmega.MavCmdDoMountControl"] = int64(ardupilotmega.MavCmdDoMountControl)
	consts["ardupilotmega.MavCmdDoMountControlQuat"] = int64(ardupilotmega.MavCmdDoMountControlQuat)
	consts["ardupilotmega.MavCmdDoOrbit"] = int64(ardupilotmega.MavCmdDoOrbit)
	consts["ardupilotmega.MavCmdDoParachute"] = int64(ardupilotmega.MavCmdDoParachute)
	consts["ardupilotmega.MavCmdDoPauseContinue"] = int64(ardupilotmega.MavCmdDoPauseContinue)
	consts["ardupilotmega.MavCmdDoRallyLand"] = int64(ardupilotmega.MavCmdDoRallyLand)
	consts["ardupilotmega.MavCmdDoRepeatRelay"] = int64(ardupilotmega.MavCmdDoRepeatRelay)
	consts["ardupilotmega.MavCmdDoRepeatServo"] = int64(ardupilotmega.MavCmdDoRepeatServo)
	consts["ardupilotmega.MavCmdDoReposition"] = int64(ardupilotmega.MavCmdDoReposition)
	consts["ardupilotmega.MavCmdDoSendBanner"] = int64(ardupilotmega.MavCmdDoSendBanner)
	consts["ardupilotmega.MavCmdDoSetCamTriggDist"] = int64(ardupilotmega.MavCmdDoSetCamTriggDist)
	consts["ardupilotmega.MavCmdDoSetCamTriggInterval"] = int64(ardupilotmega.MavCmdDoSetCamTriggInterval)
	consts["ardupilotmega.MavCmdDoSetHome"] = int64(ardupilotmega.MavCmdDoSetHome)
	consts["ardupilotmega.MavCmdDoSetMissionCurrent"] = int64(ardupilotmega.MavCmdDoSetMissionCurrent)
	consts["ardupilotmega.MavCmdDoSetMode"] = int64(ardupilotmega.MavCmdDoSetMode)
	consts["ardupilotmega.MavCmdDoSetParameter"] = int64(ardupilotmega.MavCmdDoSetParameter)
	consts["ardupilotmega.MavCmdDoSetRelay"] = int64(ardupilotmega.MavCmdDoSetRelay)
	consts["ardupilotmega.MavCmdDoSetReverse"] = int64(ardupilotmega.MavCmdDoSetReverse)
	consts["ardupilotmega.MavCmdDoSetRoi"] = int64(ardupilotmega.MavCmdDoSetRoi)
	consts["ardupilotmega.MavCmdDoSetRoiLocation"] = int64(ardupilotmega.MavCmdDoSetRoiLocation)
	consts["ardupilotmega.MavCmdDoSetRoiNone"] = int64(ardupilotmega.MavCmdDoSetRoiNone)
	consts["ardupilotmega.MavCmdDoSetRoiSysID"] = int64(ardupilotmega.MavCmdDoSetRoiSysID)
	consts["ardupilotmega.MavCmdDoSetRoiWpnextOffset"] = int64(ardupilotmega.MavCmdDoSetRoiWpnextOffset)
	consts["ardupilotmega.MavCmdDoSetServo"] = int64(ardupilotmega.MavCmdDoSetServo)
	consts["ardupilotmega.MavCmdDoStartMagCal"] = int64(ardupilotmega.MavCmdDoStartMagCal)
	consts["ardupilotmega.MavCmdDoTriggerControl"] = int64(ardupilotmega.MavCmdDoTriggerControl)
	consts["ardupilotmega.MavCmdDoVtolTransition"] = int64(ardupilotmega.MavCmdDoVtolTransition)
	consts["ardupilotmega.MavCmdDoWinch"] = int64(ardupilotmega.MavCmdDoWinch)
	consts["ardupilotmega.MavCmdEnumEnd"] = int64(ardupilotmega.MavCmdEnumEnd)
	consts["ardupilotmega.MavCmdFixedMagCal"] = int64(ardupilotmega.MavCmdFixedMagCal)
	consts["ardupilotmega.MavCmdFixedMagCalField"] = int64(ardupilotmega.MavCmdFixedMagCalField)
	consts["ardupilotmega.MavCmdFixedMagCalYaw"] = int64(ardupilotmega.MavCmdFixedMagCalYaw)
	consts["ardupilotmega.MavCmdFlashBootloader"] = int64(ardupilotmega.MavCmdFlashBootloader)
	consts["ardupilotmega.MavCmdGetHomePosition"] = int64(ardupilotmega.MavCmdGetHomePosition)
	consts["ardupilotmega.MavCmdGetMessageInterval"] = int64(ardupilotmega.MavCmdGetMessageInterval)
	consts["ardupilotmega.MavCmdGimbalAxisCalibrationStatus"] = int64(ardupilotmega.MavCmdGimbalAxisCalibrationStatus)
	consts["ardupilotmega.MavCmdGimbalFullReset"] = int64(ardupilotmega.MavCmdGimbalFullReset)
	consts["ardupilotmega.MavCmdGimbalRequestAxisCalibration"] = int64(ardupilotmega.MavCmdGimbalRequestAxisCalibration)
	consts["ardupilotmega.MavCmdGimbalReset"] = int64(ardupilotmega.MavCmdGimbalReset)
	consts["ardupilotmega.MavCmdIlluminatorOnOff"] = int64(ardupilotmega.MavCmdIlluminatorOnOff)
	consts["ardupilotmega.MavCmdImageStartCapture"] = int64(ardupilotmega.MavCmdImageStartCapture)
	consts["ardupilotmega.MavCmdImageStopCapture"] = int64(ardupilotmega.MavCmdImageStopCapture)
	consts["ardupilotmega.MavCmdJumpTag"] = int64(ardupilotmega.MavCmdJumpTag)
	consts["ardupilotmega.MavCmdLoggingStart"] = int64(ardupilotmega.MavCmdLoggingStart)
	consts["ardupilotmega.MavCmdLoggingStop"] = int64(ardupilotmega.MavCmdLoggingStop)
	consts["ardupilotmega.MavCmdMissionStart"] = int64(ardupilotmega.MavCmdMissionStart)
	consts["ardupilotmega.MavCmdNAVAltitudeWait"] = int64(ardupilotmega.MavCmdNAVAltitudeWait)
	consts["ardupilotmega.MavCmdNAVContinueAndChangeAlt"] = int64(ardupilotmega.MavCmdNAVContinueAndChangeAlt)
	consts["ardupilotmega.MavCmdNAVDelay"] = int64(ardupilotmega.MavCmdNAVDelay)
	consts["ardupilotmega.MavCmdNAVFenceCiRCleExclusion"] = int64(ardupilotmega.MavCmdNAVFenceCiRCleExclusion)
	consts["ardupilotmega.MavCmdNAVFenceCiRCleInclusion"] = int64(ardupilotmega.MavCmdNAVFenceCiRCleInclusion)
	consts["ardupilotmega.MavCmdNAVFencePolygonVertexExclusion"] = int64(ardupilotmega.MavCmdNAVFencePolygonVertexExclusion)
	consts["ardupilotmega.MavCmdNAVFencePolygonVertexInclusion"] = int64(ardupilotmega.MavCmdNAVFencePolygonVertexInclusion)
	consts["ardupilotmega.MavCmdNAVFenceReturnPoint"] = int64(ardupilotmega.MavCmdNAVFenceReturnPoint)
	consts["ardupilotmega.MavCmdNAVFollow"] = int64(ardupilotmega.MavCmdNAVFollow)
	consts["ardupilotmega.MavCmdNAVGUIDedEnable"] = int64(ardupilotmega.MavCmdNAVGUIDedEnable)
	consts["ardupilotmega.MavCmdNAVLand"] = int64(ardupilotmega.MavCmdNAVLand)
	consts["ardupilotmega.MavCmdNAVLandLocal"] = int64(ardupilotmega.MavCmdNAVLandLocal)
	consts["ardupilotmega.MavCmdNAVLast"] = int64(ardupilotmega.MavCmdNAVLast)
	consts["ardupilotmega.MavCmdNAVLoiterTime"] = int64(ardupilotmega.MavCmdNAVLoiterTime)
	consts["ardupilotmega.MavCmdNAVLoiterToAlt"] = int64(ardupilotmega.MavCmdNAVLoiterToAlt)
	consts["ardupilotmega.MavCmdNAVLoiterTurns"] = int64(ardupilotmega.MavCmdNAVLoiterTurns)
	consts["ardupilotmega.MavCmdNAVLoiterUnlim"] = int64(ardupilotmega.MavCmdNAVLoiterUnlim)
	consts["ardupilotmega.MavCmdNAVPathplanning"] = int64(ardupilotmega.MavCmdNAVPathplanning)
	consts["ardupilotmega.MavCmdNAVPayloadPlace"] = int64(ardupilotmega.MavCmdNAVPayloadPlace)
	consts["ardupilotmega.MavCmdNAVRallyPoint"] = int64(ardupilotmega.MavCmdNAVRallyPoint)
	consts["ardupilotmega.MavCmdNAVReturnToLaunch"] = int64(ardupilotmega.MavCmdNAVReturnToLaunch)
	consts["ardupilotmega.MavCmdNAVRoi"] = int64(ardupilotmega.MavCmdNAVRoi)
	consts["ardupilotmega.MavCmdNAVSetYawSpeed"] = int64(ardupilotmega.MavCmdNAVSetYawSpeed)
	consts["ardupilotmega.MavCmdNAVSplineWaypoint"] = int64(ardupilotmega.MavCmdNAVSplineWaypoint)
	consts["ardupilotmega.MavCmdNAVTakeoff"] = int64(ardupilotmega.MavCmdNAVTakeoff)
	consts["ardupilotmega.MavCmdNAVTakeoffLocal"] = int64(ardupilotmega.MavCmdNAVTakeoffLocal)
	consts["ardupilotmega.MavCmdNAVVtolLand"] = int64(ardupilotmega.MavCmdNAVVtolLand)
	consts["ardupilotmega.MavCmdNAVVtolTakeoff"] = int64(ardupilotmega.MavCmdNAVVtolTakeoff)
	consts["ardupilotmega.MavCmdNAVWaypoint"] = int64(ardupilotmega.MavCmdNAVWaypoint)
	consts["ardupilotmega.MavCmdOverrIDeGoto"] = int64(ardupilotmega.MavCmdOverrIDeGoto)
	consts["ardupilotmega.MavCmdPanoramaCreate"] = int64(ardupilotmega.MavCmdPanoramaCreate)
	consts["ardupilotmega.MavCmdPayloadControlDeploy"] = int64(ardupilotmega.MavCmdPayloadControlDeploy)
	consts["ardupilotmega.MavCmdPayloadPrepareDeploy"] = int64(ardupilotmega.MavCmdPayloadPrepareDeploy)
	consts["ardupilotmega.MavCmdPowerOffInitiated"] = int64(ardupilotmega.MavCmdPowerOffInitiated)
	consts["ardupilotmega.MavCmdPreflightCalibration"] = int64(ardupilotmega.MavCmdPreflightCalibration)
	consts["ardupilotmega.MavCmdPreflightRebootShutdown"] = int64(ardupilotmega.MavCmdPreflightRebootShutdown)
	consts["ardupilotmega.MavCmdPreflightSetSensorOffsets"] = int64(ardupilotmega.MavCmdPreflightSetSensorOffsets)
	consts["ardupilotmega.MavCmdPreflightStorage"] = int64(ardupilotmega.MavCmdPreflightStorage)
	consts["ardupilotmega.MavCmdPreflightUavcan"] = int64(ardupilotmega.MavCmdPreflightUavcan)
	consts["ardupilotmega.MavCmdRequestAutopilotCapabilities"] = int64(ardupilotmega.MavCmdRequestAutopilotCapabilities)
	consts["ardupilotmega.MavCmdRequestCameraCaptureStatus"] = int64(ardupilotmega.MavCmdRequestCameraCaptureStatus)
	consts["ardupilotmega.MavCmdRequestCameraImageCapture"] = int64(ardupilotmega.MavCmdRequestCameraImageCapture)
	consts["ardupilotmega.MavCmdRequestCameraInformation"] = int64(ardupilotmega.MavCmdRequestCameraInformation)
	consts["ardupilotmega.MavCmdRequestCameraSettings"] = int64(ardupilotmega.MavCmdRequestCameraSettings)
	consts["ardupilotmega.MavCmdRequestFlightInformation"] = int64(ardupilotmega.MavCmdRequestFlightInformation)
	consts["ardupilotmega.MavCmdRequestMessage"] = int64(ardupilotmega.MavCmdRequestMessage)
	consts["ardupilotmega.MavCmdRequestProtocolVersion"] = int64(ardupilotmega.MavCmdRequestProtocolVersion)
	consts["ardupilotmega.MavCmdRequestStorageInformation"] = int64(ardupilotmega.MavCmdRequestStorageInformation)
	consts["ardupilotmega.MavCmdRequestVIDeoStreamInformation"] = int64(ardupilotmega.MavCmdRequestVIDeoStreamInformation)
	consts["ardupilotmega.MavCmdRequestVIDeoStreamStatus"] = int64(ardupilotmega.MavCmdRequestVIDeoStreamStatus)
	consts["ardupilotmega.MavCmdResetCameraSettings"] = int64(ardupilotmega.MavCmdResetCameraSettings)
	consts["ardupilotmega.MavCmdSetCameraFocus"] = int64(ardupilotmega.MavCmdSetCameraFocus)
	consts["ardupilotmega.MavCmdSetCameraMode"] = int64(ardupilotmega.MavCmdSetCameraMode)
	consts["ardupilotmega.MavCmdSetCameraZoom"] = int64(ardupilotmega.MavCmdSetCameraZoom)
	consts["ardupilotmega.MavCmdSetFactoryTestMode"] = int64(ardupilotmega.MavCmdSetFactoryTestMode)
	consts["ardupilotmega.MavCmdSetGUIDedSubmodeCiRCle"] = int64(ardupilotmega.MavCmdSetGUIDedSubmodeCiRCle)
	consts["ardupilotmega.MavCmdSetGUIDedSubmodeStandard"] = int64(ardupilotmega.MavCmdSetGUIDedSubmodeStandard)
	consts["ardupilotmega.MavCmdSetMessageInterval"] = int64(ardupilotmega.MavCmdSetMessageInterval)
	consts["ardupilotmega.MavCmdSoloBtnFlyClick"] = int64(ardupilotmega.MavCmdSoloBtnFlyClick)
	consts["ardupilotmega.MavCmdSoloBtnFlyHold"] = int64(ardupilotmega.MavCmdSoloBtnFlyHold)
	consts["ardupilotmega.MavCmdSoloBtnPauseClick"] = int64(ardupilotmega.MavCmdSoloBtnPauseClick)
	consts["ardupilotmega.MavCmdSpatialUser1"] = int64(ardupilotmega.MavCmdSpatialUser1)
	consts["ardupilotmega.MavCmdSpatialUser2"] = int64(ardupilotmega.MavCmdSpatialUser2)
	consts["ardupilotmega.MavCmdSpatialUser3"] = int64(ardupilotmega.MavCmdSpatialUser3)
	consts["ardupilotmega.MavCmdSpatialUser4"] = int64(ardupilotmega.MavCmdSpatialUser4)
	consts["ardupilotmega.MavCmdSpatialUser5"] = int64(ardupilotmega.MavCmdSpatialUser5)
	consts["ardupilotmega.MavCmdStartRxPair"] = int64(ardupilotmega.MavCmdStartRxPair)
	consts["ardupilotmega.MavCmdStorageFormat"] = int64(ardupilotmega.MavCmdStorageFormat)
	consts["ardupilotmega.MavCmdUavcanGetNodeInfo"] = int64(ardupilotmega.MavCmdUavcanGetNodeInfo)
	consts["ardupilotmega.MavCmdUser1"] = int64(ardupilotmega.MavCmdUser1)
	consts["ardupilotmega.MavCmdUser2"] = int64(ardupilotmega.MavCmdUser2)
	consts["ardupilotmega.MavCmdUser3"] = int64(ardupilotmega.MavCmdUser3)
	consts["ardupilotmega.MavCmdUser4"] = int64(ardupilotmega.MavCmdUser4)
	consts["ardupilotmega.MavCmdUser5"] = int64(ardupilotmega.MavCmdUser5)
	consts["ardupilotmega.MavCmdVIDeoStartCapture"] = int64(ardupilotmega.MavCmdVIDeoStartCapture)
	consts["ardupilotmega.MavCmdVIDeoStartStreaming"] = int64(ardupilotmega.MavCmdVIDeoStartStreaming)
	consts["ardupilotmega.MavCmdVIDeoStopCapture"] = int64(ardupilotmega.MavCmdVIDeoStopCapture)
	consts["ardupilotmega.MavCmdVIDeoStopStreaming"] = int64(ardupilotmega.MavCmdVIDeoStopStreaming)
	consts["ardupilotmega.MavCmdWaypointUser1"] = int64(ardupilotmega.MavCmdWaypointUser1)
	consts["ardupilotmega.MavCmdWaypointUser2"] = int64(ardupilotmega.MavCmdWaypointUser2)
	consts["ardupilotmega.MavCmdWaypointUser3"] = int64(ardupilotmega.MavCmdWaypointUser3)
	consts["ardupilotmega.MavCmdWaypointUser4"] = int64(ardupilotmega.MavCmdWaypointUser4)
	consts["ardupilotmega.MavCmdWaypointUser5"] = int64(ardupilotmega.MavCmdWaypointUser5)
	consts["ardupilotmega.MavModeGimbalActive"] = int64(ardupilotmega.MavModeGimbalActive)
	consts["ardupilotmega.MavModeGimbalCalibratingPitch"] = int64(ardupilotmega.MavModeGimbalCalibratingPitch)
	consts["ardupilotmega.MavModeGimbalCalibratingRoll"] = int64(ardupilotmega.MavModeGimbalCalibratingRoll)
	consts["ardupilotmega.MavModeGimbalCalibratingYaw"] = int64(ardupilotmega.MavModeGimbalCalibratingYaw)
	consts["ardupilotmega.MavModeGimbalEnumEnd"] = int64(ardupilotmega.MavModeGimbalEnumEnd)
	consts["ardupilotmega.MavModeGimbalInitialized"] = int64(ardupilotmega.MavModeGimbalInitialized)
	consts["ardupilotmega.MavModeGimbalRateCmdTimeout"] = int64(ardupilotmega.MavModeGimbalRateCmdTimeout)
	consts["ardupilotmega.MavModeGimbalUninitialized"] = int64(ardupilotmega.MavModeGimbalUninitialized)
	consts["ardupilotmega.MavRemoteLogDataBlockAck"] = int64(ardupilotmega.MavRemoteLogDataBlockAck)
	consts["ardupilotmega.MavRemoteLogDataBlockCommandsEnumEnd"] = int64(ardupilotmega.MavRemoteLogDataBlockCommandsEnumEnd)
	consts["ardupilotmega.MavRemoteLogDataBlockNack"] = int64(ardupilotmega.MavRemoteLogDataBlockNack)
	consts["ardupilotmega.MavRemoteLogDataBlockStart"] = int64(ardupilotmega.MavRemoteLogDataBlockStart)
	consts["ardupilotmega.MavRemoteLogDataBlockStatusesEnumEnd"] = int64(ardupilotmega.MavRemoteLogDataBlockStatusesEnumEnd)
	consts["ardupilotmega.MavRemoteLogDataBlockStop"] = int64(ardupilotmega.MavRemoteLogDataBlockStop)
	consts["ardupilotmega.PIDTuningAccz"] = int64(ardupilotmega.PIDTuningAccz)
	consts["ardupilotmega.PIDTuningAxisEnumEnd"] = int64(ardupilotmega.PIDTuningAxisEnumEnd)
	consts["ardupilotmega.PIDTuningLanding"] = int64(ardupilotmega.PIDTuningLanding)
	consts["ardupilotmega.PIDTuningPitch"] = int64(ardupilotmega.PIDTuningPitch)
	consts["ardupilotmega.PIDTuningRoll"] = int64(ardupilotmega.PIDTuningRoll)
	consts["ardupilotmega.PIDTuningSteer"] = int64(ardupilotmega.PIDTuningSteer)
	consts["ardupilotmega.PIDTuningYaw"] = int64(ardupilotmega.PIDTuningYaw)
	consts["ardupilotmega.PlaneModeAcro"] = int64(ardupilotmega.PlaneModeAcro)
	consts["ardupilotmega.PlaneModeAuto"] = int64(ardupilotmega.PlaneModeAuto)
	consts["ardupilotmega.PlaneModeAutotune"] = int64(ardupilotmega.PlaneModeAutotune)
	consts["ardupilotmega.PlaneModeAvoIDAdsb"] = int64(ardupilotmega.PlaneModeAvoIDAdsb)
	consts["ardupilotmega.PlaneModeCiRCle"] = int64(ardupilotmega.PlaneModeCiRCle)
	consts["ardupilotmega.PlaneModeCruise"] = int64(ardupilotmega.PlaneModeCruise)
	consts["ardupilotmega.PlaneModeEnumEnd"] = int64(ardupilotmega.PlaneModeEnumEnd)
	consts["ardupilotmega.PlaneModeFlyByWireA"] = int64(ardupilotmega.PlaneModeFlyByWireA)
	consts["ardupilotmega.PlaneModeFlyByWireB"] = int64(ardupilotmega.PlaneModeFlyByWireB)
	consts["ardupilotmega.PlaneModeGUIDed"] = int64(ardupilotmega.PlaneModeGUIDed)
	consts["ardupilotmega.PlaneModeInitializing"] = int64(ardupilotmega.PlaneModeInitializing)
	consts["ardupilotmega.PlaneModeLoiter"] = int64(ardupilotmega.PlaneModeLoiter)
	consts["ardupilotmega.PlaneModeManual"] = int64(ardupilotmega.PlaneModeManual)
	consts["ardupilotmega.PlaneModeQautotune"] = int64(ardupilotmega.PlaneModeQautotune)
	consts["ardupilotmega.PlaneModeQhover"] = int64(ardupilotmega.PlaneModeQhover)
	consts["ardupilotmega.PlaneModeQland"] = int64(ardupilotmega.PlaneModeQland)
	consts["ardupilotmega.PlaneModeQloiter"] = int64(ardupilotmega.PlaneModeQloiter)
	consts["ardupilotmega.PlaneModeQrtl"] = int64(ardupilotmega.PlaneModeQrtl)
	consts["ardupilotmega.PlaneModeQstabilize"] = int64(ardupilotmega.PlaneModeQstabilize)
	consts["ardupilotmega.PlaneModeRtl"] = int64(ardupilotmega.PlaneModeRtl)
	consts["ardupilotmega.PlaneModeStabilize"] = int64(ardupilotmega.PlaneModeStabilize)
	consts["ardupilotmega.PlaneModeTakeoff"] = int64(ardupilotmega.PlaneModeTakeoff)
	consts["ardupilotmega.PlaneModeTraining"] = int64(ardupilotmega.PlaneModeTraining)
	consts["ardupilotmega.RallyFlagsEnumEnd"] = int64(ardupilotmega.RallyFlagsEnumEnd)
	consts["ardupilotmega.RoverModeAcro"] = int64(ardupilotmega.RoverModeAcro)
	consts["ardupilotmega.RoverModeAuto"] = int64(ardupilotmega.RoverModeAuto)
	consts["ardupilotmega.RoverModeEnumEnd"] = int64(ardupilotmega.RoverModeEnumEnd)
	consts["ardupilotmega.RoverModeGUIDed"] = int64(ardupilotmega.RoverModeGUIDed)
	consts["ardupilotmega.RoverModeHold"] = int64(ardupilotmega.RoverModeHold)
	consts["ardupilotmega.RoverModeInitializing"] = int64(ardupilotmega.RoverModeInitializing)
	consts["ardupilotmega.RoverModeLoiter"] = int64(ardupilotmega.RoverModeLoiter)
	consts["ardupilotmega.RoverModeManual"] = int64(ardupilotmega.RoverModeManual)
	consts["ardupilotmega.RoverModeRtl"] = int64(ardupilotmega.RoverModeRtl)
	consts["ardupilotmega.RoverModeSmartRtl"] = int64(ardupilotmega.RoverModeSmartRtl)
	consts["ardupilotmega.RoverModeSteering"] = int64(ardupilotmega.RoverModeSteering)
	consts["ardupilotmega.SubModeAcro"] = int64(ardupilotmega.SubModeAcro)
	consts["ardupilotmega.SubModeAltHold"] = int64(ardupilotmega.SubModeAltHold)
	consts["ardupilotmega.SubModeAuto"] = int64(ardupilotmega.SubModeAuto)
	consts["ardupilotmega.SubModeCiRCle"] = int64(ardupilotmega.SubModeCiRCle)
	consts["ardupilotmega.SubModeEnumEnd"] = int64(ardupilotmega.SubModeEnumEnd)
	consts["ardupilotmega.SubModeGUIDed"] = int64(ardupilotmega.SubModeGUIDed)
	consts["ardupilotmega.SubModeManual"] = int64(ardupilotmega.SubModeManual)
	consts["ardupilotmega.SubModePoshold"] = int64(ardupilotmega.SubModePoshold)
	consts["ardupilotmega.SubModeStabilize"] = int64(ardupilotmega.SubModeStabilize)
	consts["ardupilotmega.SubModeSurface"] = int64(ardupilotmega.SubModeSurface)
	consts["ardupilotmega.TrackerModeAuto"] = int64(ardupilotmega.TrackerModeAuto)
	consts["ardupilotmega.TrackerModeEnumEnd"] = int64(ardupilotmega.TrackerModeEnumEnd)
	consts["ardupilotmega.TrackerModeInitializing"] = int64(ardupilotmega.TrackerModeInitializing)
	consts["ardupilotmega.TrackerModeManual"] = int64(ardupilotmega.TrackerModeManual)
	consts["ardupilotmega.TrackerModeScan"] = int64(ardupilotmega.TrackerModeScan)
	consts["ardupilotmega.TrackerModeServoTest"] = int64(ardupilotmega.TrackerModeServoTest)
	consts["ardupilotmega.TrackerModeStop"] = int64(ardupilotmega.TrackerModeStop)
	consts["ardupilotmega.WinchActionsEnumEnd"] = int64(ardupilotmega.WinchActionsEnumEnd)
	consts["ardupilotmega.WinchRateControl"] = int64(ardupilotmega.WinchRateControl)
	consts["ardupilotmega.WinchRelativeLengthControl"] = int64(ardupilotmega.WinchRelativeLengthControl)
	consts["ardupilotmega.WinchRelaxed"] = int64(ardupilotmega.WinchRelaxed)
	consts["asluav.GsmLinkType2G"] = int64(asluav.GsmLinkType2G)
	consts["asluav.GsmLinkType3G"] = int64(asluav.GsmLinkType3G)
	consts["asluav.GsmLinkType4G"] = int64(asluav.GsmLinkType4G)
	consts["asluav.GsmLinkTypeEnumEnd"] = int64(asluav.GsmLinkTypeEnumEnd)
	consts["asluav.GsmLinkTypeNone"] = int64(asluav.GsmLinkTypeNone)
	consts["asluav.GsmLinkTypeUnknown"] = int64(asluav.GsmLinkTypeUnknown)
	consts["asluav.GsmModemTypeEnumEnd"] = int64(asluav.GsmModemTypeEnumEnd)
	consts["asluav.GsmModemTypeHuaweiE3372"] = int64(asluav.GsmModemTypeHuaweiE3372)
	consts["asluav.GsmModemTypeUnknown"] = int64(asluav.GsmModemTypeUnknown)
	consts["asluav.MavCmdAirframeConfiguration"] = int64(asluav.MavCmdAirframeConfiguration)
	consts["asluav.MavCmdArmAuthorizationRequest"] = int64(asluav.MavCmdArmAuthorizationRequest)
	consts["asluav.MavCmdComponentArmDisarm"] = int64(asluav.MavCmdComponentArmDisarm)
	consts["asluav.MavCmdConditionChangeAlt"] = int64(asluav.MavCmdConditionChangeAlt)
	consts["asluav.MavCmdConditionDelay"] = int64(asluav.MavCmdConditionDelay)
	consts["asluav.MavCmdConditionDistance"] = int64(asluav.MavCmdConditionDistance)
	consts["asluav.MavCmdConditionGate"] = int64(asluav.MavCmdConditionGate)
	consts["asluav.MavCmdConditionLast"] = int64(asluav.MavCmdConditionLast)
	consts["asluav.MavCmdConditionYaw"] = int64(asluav.MavCmdConditionYaw)
	consts["asluav.MavCmdControlHighLatency"] = int64(asluav.MavCmdControlHighLatency)
	consts["asluav.MavCmdDoChangeAltitude"] = int64(asluav.MavCmdDoChangeAltitude)
	consts["asluav.MavCmdDoChangeSpeed"] = int64(asluav.MavCmdDoChangeSpeed)
	consts["asluav.MavCmdDoControlVIDeo"] = int64(asluav.MavCmdDoControlVIDeo)
	consts["asluav.MavCmdDoDigicamConfigure"] = int64(asluav.MavCmdDoDigicamConfigure)
	consts["asluav.MavCmdDoDigicamControl"] = int64(asluav.MavCmdDoDigicamControl)
	consts["asluav.MavCmdDoEngineControl"] = int64(asluav.MavCmdDoEngineControl)
	consts["asluav.MavCmdDoFenceEnable"] = int64(asluav.MavCmdDoFenceEnable)
	consts["asluav.MavCmdDoFlighttermination"] = int64(asluav.MavCmdDoFlighttermination)
	consts["asluav.MavCmdDoFollow"] = int64(asluav.MavCmdDoFollow)
	consts["asluav.MavCmdDoFollowReposition"] = int64(asluav.MavCmdDoFollowReposition)
	consts["asluav.MavCmdDoGUIDedLimits"] = int64(asluav.MavCmdDoGUIDedLimits)
	consts["asluav.MavCmdDoGUIDedMaster"] = int64(asluav.MavCmdDoGUIDedMaster)
	consts["asluav.MavCmdDoGoAround"] = int64(asluav.MavCmdDoGoAround)
	consts["asluav.MavCmdDoInvertedFlight"] = int64(asluav.MavCmdDoInvertedFlight)
	consts["asluav.MavCmdDoJump"] = int64(asluav.MavCmdDoJump)
	consts["asluav.MavCmdDoJumpTag"] = int64(asluav.MavCmdDoJumpTag)
	consts["asluav.MavCmdDoLandStart"] = int64(asluav.MavCmdDoLandStart)
	consts["asluav.MavCmdDoLast"] = int64(asluav.MavCmdDoLast)
	consts["asluav.MavCmdDoMotorTest"] = int64(asluav.MavCmdDoMotorTest)
	consts["asluav.MavCmdDoMountConfigure"] = int64(asluav.MavCmdDoMountConfigure)
	consts["asluav.MavCmdDoMountControl"] = int64(asluav.MavCmdDoMountControl)
	consts["asluav.MavCmdDoMountControlQuat"] = int64(asluav.MavCmdDoMountControlQuat)
	consts["asluav.MavCmdDoOrbit"] = int64(asluav.MavCmdDoOrbit)
	consts["asluav.MavCmdDoParachute"] = int64(asluav.MavCmdDoParachute)
	consts["asluav.MavCmdDoPauseContinue"] = int64(asluav.MavCmdDoPauseContinue)
	consts["asluav.MavCmdDoRallyLand"] = int64(asluav.MavCmdDoRallyLand)
	consts["asluav.MavCmdDoRepeatRelay"] = int64(asluav.MavCmdDoRepeatRelay)
	consts["asluav.MavCmdDoRepeatServo"] = int64(asluav.MavCmdDoRepeatServo)
	consts["asluav.MavCmdDoReposition"] = int64(asluav.MavCmdDoReposition)
	consts["asluav.MavCmdDoSetCamTriggDist"] = int64(asluav.MavCmdDoSetCamTriggDist)
	consts["asluav.MavCmdDoSetCamTriggInterval"] = int64(asluav.MavCmdDoSetCamTriggInterval)
	consts["asluav.MavCmdDoSetHome"] = int64(asluav.MavCmdDoSetHome)
	consts["asluav.MavCmdDoSetMissionCurrent"] = int64(asluav.MavCmdDoSetMissionCurrent)
	consts["asluav.MavCmdDoSetMode"] = int64(asluav.MavCmdDoSetMode)
	consts["asluav.MavCmdDoSetParameter"] = int64(asluav.MavCmdDoSetParameter)
	consts["asluav.MavCmdDoSetRelay"] = int64(asluav.MavCmdDoSetRelay)
	consts["asluav.MavCmdDoSetReverse"] = int64(asluav.MavCmdDoSetReverse)
	consts["asluav.MavCmdDoSetRoi"] = int64(asluav.MavCmdDoSetRoi)
	consts["asluav.MavCmdDoSetRoiLocation"] = int64(asluav.MavCmdDoSetRoiLocation)
	consts["asluav.MavCmdDoSetRoiNone"] = int64(asluav.MavCmdDoSetRoiNone)
	consts["asluav.MavCmdDoSetRoiSysID"] = int64(asluav.MavCmdDoSetRoiSysID)
	consts["asluav.MavCmdDoSetRoiWpnextOffset"] = int64(asluav.MavCmdDoSetRoiWpnextOffset)
	consts["asluav.MavCmdDoSetServo"] = int64(asluav.MavCmdDoSetServo)
	consts["asluav.MavCmdDoTriggerControl"] = int64(asluav.MavCmdDoTriggerControl)
	consts["asluav.MavCmdDoVtolTransition"] = int64(asluav.MavCmdDoVtolTransition)
	consts["asluav.MavCmdEnumEnd"] = int64(asluav.MavCmdEnumEnd)
	consts["asluav.MavCmdGetHomePosition"] = int64(asluav.MavCmdGetHomePosition)
	consts["asluav.MavCmdGetMessageInterval"] = int64(asluav.MavCmdGetMessageInterval)
	consts["asluav.MavCmdIlluminatorOnOff"] = int64(asluav.MavCmdIlluminatorOnOff)
	consts["asluav.MavCmdImageStartCapture"] = int64(asluav.MavCmdImageStartCapture)
	consts["asluav.MavCmdImageStopCapture"] = int64(asluav.MavCmdImageStopCapture)
	consts["asluav.MavCmdJumpTag"] = int64(asluav.MavCmdJumpTag)
	consts["asluav.MavCmdLoggingStart"] = int64(asluav.MavCmdLoggingStart)
	consts["asluav.MavCmdLoggingStop"] = int64(asluav.MavCmdLoggingStop)
	consts["asluav.MavCmdMissionStart"] = int64(asluav.MavCmdMissionStart)
	consts["asluav.MavCmdNAVContinueAndChangeAlt"] = int64(asluav.MavCmdNAVContinueAndChangeAlt)
	consts["asluav.MavCmdNAVDelay"] = int64(asluav.MavCmdNAVDelay)
	consts["asluav.MavCmdNAVFenceCiRCleExclusion"] = int64(asluav.MavCmdNAVFenceCiRCleExclusion)
	consts["asluav.MavCmdNAVFenceCiRCleInclusion"] = int64(asluav.MavCmdNAVFenceCiRCleInclusion)
	consts["asluav.MavCmdNAVFencePolygonVertexExclusion"] = int64(asluav.MavCmdNAVFencePolygonVertexExclusion)
	consts["asluav.MavCmdNAVFencePolygonVertexInclusion"] = int64(asluav.MavCmdNAVFencePolygonVertexInclusion)
	consts["asluav.MavCmdNAVFenceReturnPoint"] = int64(asluav.MavCmdNAVFenceReturnPoint)
	consts["asluav.MavCmdNAVFollow"] = int64(asluav.MavCmdNAVFollow)
	consts["asluav.MavCmdNAVGUIDedEnable"] = int64(asluav.MavCmdNAVGUIDedEnable)
	consts["asluav.MavCmdNAVLand"] = int64(asluav.MavCmdNAVLand)
	consts["asluav.MavCmdNAVLandLocal"] = int64(asluav.MavCmdNAVLandLocal)
	consts["asluav.MavCmdNAVLast"] = int64(asluav.MavCmdNAVLast)
	consts["asluav.MavCmdNAVLoiterTime"] = int64(asluav.MavCmdNAVLoiterTime)
	consts["asluav.MavCmdNAVLoiterToAlt"] = int64(asluav.MavCmdNAVLoiterToAlt)
	consts["asluav.MavCmdNAVLoiterTurns"] = int64(asluav.MavCmdNAVLoiterTurns)
	consts["asluav.MavCmdNAVLoiterUnlim"] = int64(asluav.MavCmdNAVLoiterUnlim)
	consts["asluav.MavCmdNAVPathplanning"] = int64(asluav.MavCmdNAVPathplanning)
	consts["asluav.MavCmdNAVPayloadPlace"] = int64(asluav.MavCmdNAVPayloadPlace)
	consts["asluav.MavCmdNAVRallyPoint"] = int64(asluav.MavCmdNAVRallyPoint)
	consts["asluav.MavCmdNAVReturnToLaunch"] = int64(asluav.MavCmdNAVReturnToLaunch)
	consts["asluav.MavCmdNAVRoi"] = int64(asluav.MavCmdNAVRoi)
	consts["asluav.MavCmdNAVSetYawSpeed"] = int64(asluav.MavCmdNAVSetYawSpeed)
	consts["asluav.MavCmdNAVSplineWaypoint"] = int64(asluav.MavCmdNAVSplineWaypoint)
	consts["asluav.MavCmdNAVTakeoff"] = int64(asluav.MavCmdNAVTakeoff)
	consts["asluav.MavCmdNAVTakeoffLocal"] = int64(asluav.MavCmdNAVTakeoffLocal)
	consts["asluav.MavCmdNAVVtolLand"] = int64(asluav.MavCmdNAVVtolLand)
	consts["asluav.MavCmdNAVVtolTakeoff"] = int64(asluav.MavCmdNAVVtolTakeoff)
	consts["asluav.MavCmdNAVWaypoint"] = int64(asluav.MavCmdNAVWaypoint)
	consts["asluav.MavCmdOverrIDeGoto"] = int64(asluav.MavCmdOverrIDeGoto)
	consts["asluav.MavCmdPanoramaCreate"] = int64(asluav.MavCmdPanoramaCreate)
	consts["asluav.MavCmdPayloadControl"] = int64(asluav.MavCmdPayloadControl)
	consts["asluav.MavCmdPayloadControlDeploy"] = int64(asluav.MavCmdPayloadControlDeploy)
	consts["asluav.MavCmdPayloadPrepareDeploy"] = int64(asluav.MavCmdPayloadPrepareDeploy)
	consts["asluav.MavCmdPreflightCalibration"] = int64(asluav.MavCmdPreflightCalibration)
	consts["asluav.MavCmdPreflightRebootShutdown"] = int64(asluav.MavCmdPreflightRebootShutdown)
	consts["asluav.MavCmdPreflightSetSensorOffsets"] = int64(asluav.MavCmdPreflightSetSensorOffsets)
	consts["asluav.MavCmdPreflightStorage"] = int64(asluav.MavCmdPreflightStorage)
	consts["asluav.MavCmdPreflightUavcan"] = int64(asluav.MavCmdPreflightUavcan)
	consts["asluav.MavCmdRequestAutopilotCapabilities"] = int64(asluav.MavCmdRequestAutopilotCapabilities)
	consts["asluav.MavCmdRequestCameraCaptureStatus"] = int64(asluav.MavCmdRequestCameraCaptureStatus)
	consts["asluav.MavCmdRequestCameraImageCapture"] = int64(asluav.MavCmdRequestCameraImageCapture)
	consts["asluav.MavCmdRequestCameraInformation"] = int64(asluav.MavCmdRequestCameraInformation)
	consts["asluav.MavCmdRequestCameraSettings"] = int64(asluav.MavCmdRequestCameraSettings)
	consts["asluav.MavCmdRequestFlightInformation"] = int64(asluav.MavCmdRequestFlightInformation)
	consts["asluav.MavCmdRequestMessage"] = int64(asluav.MavCmdRequestMessage)
	consts["asluav.MavCmdRequestProtocolVersion"] = int64(asluav.MavCmdRequestProtocolVersion)
	consts["asluav.MavCmdRequestStorageInformation"] = int64(asluav.MavCmdRequestStorageInformation)
	consts["asluav.MavCmdRequestVIDeoStreamInformation"] = int64(asluav.MavCmdRequestVIDeoStreamInformation)
	consts["asluav.MavCmdRequestVIDeoStreamStatus"] = int64(asluav.MavCmdRequestVIDeoStreamStatus)
	consts["asluav.MavCmdResetCameraSettings"] = int64(asluav.MavCmdResetCameraSettings)
	consts["asluav.MavCmdResetMppt"] = int64(asluav.MavCmdResetMppt)
	consts["asluav.MavCmdSetCameraFocus"] = int64(asluav.MavCmdSetCameraFocus)
	consts["asluav.MavCmdSetCameraMode"] = int64(asluav.MavCmdSetCameraMode)
	consts["asluav.MavCmdSetCameraZoom"] = int64(asluav.MavCmdSetCameraZoom)
	consts["asluav.MavCmdSetGUIDedSubmodeCiRCle"] = int64(asluav.MavCmdSetGUIDedSubmodeCiRCle)
	consts["asluav.MavCmdSetGUIDedSubmodeStandard"] = int64(asluav.MavCmdSetGUIDedSubmodeStandard)
	consts["asluav.MavCmdSetMessageInterval"] = int64(asluav.MavCmdSetMessageInterval)
	consts["asluav.MavCmdSpatialUser1"] = int64(asluav.MavCmdSpatialUser1)
	consts["asluav.MavCmdSpatialUser2"] = int64(asluav.MavCmdSpatialUser2)
	consts["asluav.MavCmdSpatialUser3"] = int64(asluav.MavCmdSpatialUser3)
	consts["asluav.MavCmdSpatialUser4"] = int64(asluav.MavCmdSpatialUser4)
	consts["asluav.MavCmdSpatialUser5"] = int64(asluav.MavCmdSpatialUser5)
	consts["asluav.MavCmdStartRxPair"] = int64(asluav.MavCmdStartRxPair)
	consts["asluav.MavCmdStorageFormat"] = int64(asluav.MavCmdStorageFormat)
	consts["asluav.MavCmdUavcanGetNodeInfo"] = int64(asluav.MavCmdUavcanGetNodeInfo)
	consts["asluav.MavCmdUser1"] = int64(asluav.MavCmdUser1)
	consts["asluav.MavCmdUser2"] = int64(asluav.MavCmdUser2)
	consts["asluav.MavCmdUser3"] = int64(asluav.MavCmdUser3)
	consts["asluav.MavCmdUser4"] = int64(asluav.MavCmdUser4)
	consts["asluav.MavCmdUser5"] = int64(asluav.MavCmdUser5)
	consts["asluav.MavCmdVIDeoStartCapture"] = int64(asluav.MavCmdVIDeoStartCapture)
	consts["asluav.MavCmdVIDeoStartStreaming"] = int64(asluav.MavCmdVIDeoStartStreaming)
	consts["asluav.MavCmdVIDeoStopCapture"] = int64(asluav.MavCmdVIDeoStopCapture)
	consts["asluav.MavCmdVIDeoStopStreaming"] = int64(asluav.MavCmdVIDeoStopStreaming)
	consts["asluav.MavCmdWaypointUser1"] = int64(asluav.MavCmdWaypointUser1)
	consts["asluav.MavCmdWaypointUser2"] = int64(asluav.MavCmdWaypointUser2)
	consts["asluav.MavCmdWaypointUser3"] = int64(asluav.MavCmdWaypointUser3)
	consts["asluav.MavCmdWaypointUser4"] = int64(asluav.MavCmdWaypointUser4)
	consts["asluav.MavCmdWaypointUser5"] = int64(asluav.MavCmdWaypointUser5)
	consts["autoquad.AqMavlinkDefsVersion1"] = int64(autoquad.AqMavlinkDefsVersion1)
	consts["autoquad.AqNAVStatusAlthold"] = int64(autoquad.AqNAVStatusAlthold)
	consts["autoquad.AqNAVStatusCalibrating"] = int64(autoquad.AqNAVStatusCalibrating)
	consts["autoquad.AqNAVStatusCeiling"] = int64(autoquad.AqNAVStatusCeiling)
	consts["autoquad.AqNAVStatusCeilingReached"] = int64(autoquad.AqNAVStatusCeilingReached)
	consts["autoquad.AqNAVStatusDao"] = int64(autoquad.AqNAVStatusDao)
	consts["autoquad.AqNAVStatusDvh"] = int64(autoquad.AqNAVStatusDvh)
	consts["autoquad.AqNAVStatusFailsafe"] = int64(autoquad.AqNAVStatusFailsafe)
	consts["autoquad.AqNAVStatusFuelCritical"] = int64(autoquad.AqNAVStatusFuelCritical)
	consts["autoquad.AqNAVStatusFuelLow"] = int64(autoquad.AqNAVStatusFuelLow)
	consts["autoquad.AqNAVStatusGUIDed"] = int64(autoquad.AqNAVStatusGUIDed)
	consts["autoquad.AqNAVStatusHfDynamic"] = int64(autoquad.AqNAVStatusHfDynamic)
	consts["autoquad.AqNAVStatusHfLocked"] = int64(autoquad.AqNAVStatusHfLocked)
	consts["autoquad.AqNAVStatusInit"] = int64(autoquad.AqNAVStatusInit)
	consts["autoquad.AqNAVStatusManual"] = int64(autoquad.AqNAVStatusManual)
	consts["autoquad.AqNAVStatusMission"] = int64(autoquad.AqNAVStatusMission)
	consts["autoquad.AqNAVStatusNoRC"] = int64(autoquad.AqNAVStatusNoRC)
	consts["autoquad.AqNAVStatusPoshold"] = int64(autoquad.AqNAVStatusPoshold)
	consts["autoquad.AqNAVStatusReady"] = int64(autoquad.AqNAVStatusReady)
	consts["autoquad.AqNAVStatusRth"] = int64(autoquad.AqNAVStatusRth)
	consts["autoquad.AqNAVStatusStandby"] = int64(autoquad.AqNAVStatusStandby)
	consts["autoquad.AutoquadMavlinkDefsVersionEnumEnd"] = int64(autoquad.AutoquadMavlinkDefsVersionEnumEnd)
	consts["autoquad.AutoquadNAVStatusEnumEnd"] = int64(autoquad.AutoquadNAVStatusEnumEnd)
	consts["autoquad.MavCmdAirframeConfiguration"] = int64(autoquad.MavCmdAirframeConfiguration)
	consts["autoquad.MavCmdAqNAVLegOrbit"] = int64(autoquad.MavCmdAqNAVLegOrbit)
	consts["autoquad.MavCmdAqRequestVersion"] = int64(autoquad.MavCmdAqRequestVersion)
	consts["autoquad.MavCmdAqTelemetry"] = int64(autoquad.MavCmdAqTelemetry)
	consts["autoquad.MavCmdArmAuthorizationRequest"] = int64(autoquad.MavCmdArmAuthorizationRequest)
	consts["autoquad.MavCmdComponentArmDisarm"] = int64(autoquad.MavCmdComponentArmDisarm)
	consts["autoquad.MavCmdConditionChangeAlt"] = int64(autoquad.MavCmdConditionChangeAlt)
	consts["autoquad.MavCmdConditionDelay"] = int64(autoquad.MavCmdConditionDelay)
	consts["autoquad.MavCmdConditionDistance"] = int64(autoquad.MavCmdConditionDistance)
	consts["autoquad.MavCmdConditionGate"] = int64(autoquad.MavCmdConditionGate)
	consts["autoquad.MavCmdConditionLast"] = int64(autoquad.MavCmdConditionLast)
	consts["autoquad.MavCmdConditionYaw"] = int64(autoquad.MavCmdConditionYaw)
	consts["autoquad.MavCmdControlHighLatency"] = int64(autoquad.MavCmdControlHighLatency)
	consts["autoquad.MavCmdDoChangeAltitude"] = int64(autoquad.MavCmdDoChangeAltitude)
	consts["autoquad.MavCmdDoChangeSpeed"] = int64(autoquad.MavCmdDoChangeSpeed)
	consts["autoquad.MavCmdDoControlVIDeo"] = int64(autoquad.MavCmdDoControlVIDeo)
	consts["autoquad.MavCmdDoDigicamConfigure"] = int64(autoquad.MavCmdDoDigicamConfigure)
	consts["autoquad.MavCmdDoDigicamControl"] = int64(autoquad.MavCmdDoDigicamControl)
	consts["autoquad.MavCmdDoEngineControl"] = int64(autoquad.MavCmdDoEngineControl)
	consts["autoquad.MavCmdDoFenceEnable"] = int64(autoquad.MavCmdDoFenceEnable)
	consts["autoquad.MavCmdDoFlighttermination"] = int64(autoquad.MavCmdDoFlighttermination)
	consts["autoquad.MavCmdDoFollow"] = int64(autoquad.MavCmdDoFollow)
	consts["autoquad.MavCmdDoFollowReposition"] = int64(autoquad.MavCmdDoFollowReposition)
	consts["autoquad.MavCmdDoGUIDedLimits"] = int64(autoquad.MavCmdDoGUIDedLimits)
	consts["autoquad.MavCmdDoGUIDedMaster"] = int64(autoquad.MavCmdDoGUIDedMaster)
	consts["autoquad.MavCmdDoGoAround"] = int64(autoquad.MavCmdDoGoAround)
	consts["autoquad.MavCmdDoInvertedFlight"] = int64(autoquad.MavCmdDoInvertedFlight)
	consts["autoquad.MavCmdDoJump"] = int64(autoquad.MavCmdDoJump)
	consts["autoquad.MavCmdDoJumpTag"] = int64(autoquad.MavCmdDoJumpTag)
	consts["autoquad.MavCmdDoLandStart"] = int64(autoquad.MavCmdDoLandStart)
	consts["autoquad.MavCmdDoLast"] = int64(autoquad.MavCmdDoLast)
	consts["autoquad.MavCmdDoMotorTest"] = int64(autoquad.MavCmdDoMotorTest)
	consts["autoquad.MavCmdDoMountConfigure"] = int64(autoquad.MavCmdDoMountConfigure)
	consts["autoquad.MavCmdDoMountControl"] = int64(autoquad.MavCmdDoMountControl)
	consts["autoquad.MavCmdDoMountControlQuat"] = int64(autoquad.MavCmdDoMountControlQuat)
	consts["autoquad.MavCmdDoOrbit"] = int64(autoquad.MavCmdDoOrbit)
	consts["autoquad.MavCmdDoParachute"] = int64(autoquad.MavCmdDoParachute)
	consts["autoquad.MavCmdDoPauseContinue"] = int64(autoquad.MavCmdDoPauseContinue)
	consts["autoquad.MavCmdDoRallyLand"] = int64(autoquad.MavCmdDoRallyLand)
	consts["autoquad.MavCmdDoRepeatRelay"] = int64(autoquad.MavCmdDoRepeatRelay)
	consts["autoquad.MavCmdDoRepeatServo"] = int64(autoquad.MavCmdDoRepeatServo)
	consts["autoquad.MavCmdDoReposition"] = int64(autoquad.MavCmdDoReposition)
	consts["autoquad.MavCmdDoSetCamTriggDist"] = int64(autoquad.MavCmdDoSetCamTriggDist)
	consts["autoquad.MavCmdDoSetCamTriggInterval"] = int64(autoquad.MavCmdDoSetCamTriggInterval)
	consts["autoquad.MavCmdDoSetHome"] = int64(autoquad.MavCmdDoSetHome)
	consts["autoquad.MavCmdDoSetMissionCurrent"] = int64(autoquad.MavCmdDoSetMissionCurrent)
	consts["autoquad.MavCmdDoSetMode"] = int64(autoquad.MavCmdDoSetMode)
	consts["autoquad.MavCmdDoSetParameter"] = int64(autoquad.MavCmdDoSetParameter)
	consts["autoquad.MavCmdDoSetRelay"] = int64(autoquad.MavCmdDoSetRelay)
	consts["autoquad.MavCmdDoSetReverse"] = int64(autoquad.MavCmdDoSetReverse)
	consts["autoquad.MavCmdDoSetRoi"] = int64(autoquad.MavCmdDoSetRoi)
	consts["autoquad.MavCmdDoSetRoiLocation"] = int64(autoquad.MavCmdDoSetRoiLocation)
	consts["autoquad.MavCmdDoSetRoiNone"] = int64(autoquad.MavCmdDoSetRoiNone)
	consts["autoquad.MavCmdDoSetRoiSysID"] = int64(autoquad.MavCmdDoSetRoiSysID)
	consts["autoquad.MavCmdDoSetRoiWpnextOffset"] = int64(autoquad.MavCmdDoSetRoiWpnextOffset)
	consts["autoquad.MavCmdDoSetServo"] = int64(autoquad.MavCmdDoSetServo)
	consts["autoquad.MavCmdDoTriggerControl"] = int64(autoquad.MavCmdDoTriggerControl)
	consts["autoquad.MavCmdDoVtolTransition"] = int64(autoquad.MavCmdDoVtolTransition)
	consts["autoquad.MavCmdEnumEnd"] = int64(autoquad.MavCmdEnumEnd)
	consts["autoquad.MavCmdGetHomePosition"] = int64(autoquad.MavCmdGetHomePosition)
	consts["autoquad.MavCmdGetMessageInterval"] = int64(autoquad.MavCmdGetMessageInterval)
	consts["autoquad.MavCmdIlluminatorOnOff"] = int64(autoquad.MavCmdIlluminatorOnOff)
	consts["autoquad.MavCmdImageStartCapture"] = int64(autoquad.MavCmdImageStartCapture)
	consts["autoquad.MavCmdImageStopCapture"] = int64(autoquad.MavCmdImageStopCapture)
	consts["autoquad.MavCmdJumpTag"] = int64(autoquad.MavCmdJumpTag)
	consts["autoquad.MavCmdLoggingStart"] = int64(autoquad.MavCmdLoggingStart)
	consts["autoquad.MavCmdLoggingStop"] = int64(autoquad.MavCmdLoggingStop)
	consts["autoquad.MavCmdMissionStart"] = int64(autoquad.MavCmdMissionStart)
	consts["autoquad.MavCmdNAVContinueAndChangeAlt"] = int64(autoquad.MavCmdNAVContinueAndChangeAlt)
	consts["autoquad.MavCmdNAVDelay"] = int64(autoquad.MavCmdNAVDelay)
	consts["autoquad.MavCmdNAVFenceCiRCleExclusion"] = int64(autoquad.MavCmdNAVFenceCiRCleExclusion)
	consts["autoquad.MavCmdNAVFenceCiRCleInclusion"] = int64(autoquad.MavCmdNAVFenceCiRCleInclusion)
	consts["autoquad.MavCmdNAVFencePolygonVertexExclusion"] = int64(autoquad.MavCmdNAVFencePolygonVertexExclusion)
	consts["autoquad.MavCmdNAVFencePolygonVertexInclusion"] = int64(autoquad.MavCmdNAVFencePolygonVertexInclusion)
	consts["autoquad.MavCmdNAVFenceReturnPoint"] = int64(autoquad.MavCmdNAVFenceReturnPoint)
	consts["autoquad.MavCmdNAVFollow"] = int64(autoquad.MavCmdNAVFollow)
	consts["autoquad.MavCmdNAVGUIDedEnable"] = int64(autoquad.MavCmdNAVGUIDedEnable)
	consts["autoquad.MavCmdNAVLand"] = int64(autoquad.MavCmdNAVLand)
	consts["autoquad.MavCmdNAVLandLocal"] = int64(autoquad.MavCmdNAVLandLocal)
	consts["autoquad.MavCmdNAVLast"] = int64(autoquad.MavCmdNAVLast)
	consts["autoquad.MavCmdNAVLoiterTime"] = int64(autoquad.MavCmdNAVLoiterTime)
	consts["autoquad.MavCmdNAVLoiterToAlt"] = int64(autoquad.MavCmdNAVLoiterToAlt)
	consts["autoquad.MavCmdNAVLoiterTurns"] = int64(autoquad.MavCmdNAVLoiterTurns)
	consts["autoquad.MavCmdNAVLoiterUnlim"] = int64(autoquad.MavCmdNAVLoiterUnlim)
	consts["autoquad.MavCmdNAVPathplanning"] = int64(autoquad.MavCmdNAVPathplanning)
	consts["autoquad.MavCmdNAVPayloadPlace"] = int64(autoquad.MavCmdNAVPayloadPlace)
	consts["autoquad.MavCmdNAVRallyPoint"] = int64(autoquad.MavCmdNAVRallyPoint)
	consts["autoquad.MavCmdNAVReturnToLaunch"] = int64(autoquad.MavCmdNAVReturnToLaunch)
	consts["autoquad.MavCmdNAVRoi"] = int64(autoquad.MavCmdNAVRoi)
	consts["autoquad.MavCmdNAVSetYawSpeed"] = int64(autoquad.MavCmdNAVSetYawSpeed)
	consts["autoquad.MavCmdNAVSplineWaypoint"] = int64(autoquad.MavCmdNAVSplineWaypoint)
	consts["autoquad.MavCmdNAVTakeoff"] = int64(autoquad.MavCmdNAVTakeoff)
	consts["autoquad.MavCmdNAVTakeoffLocal"] = int64(autoquad.MavCmdNAVTakeoffLocal)
	consts["autoquad.MavCmdNAVVtolLand"] = int64(autoquad.MavCmdNAVVtolLand)
	consts["autoquad.MavCmdNAVVtolTakeoff"] = int64(autoquad.MavCmdNAVVtolTakeoff)
	consts["autoquad.MavCmdNAVWaypoint"] = int64(autoquad.MavCmdNAVWaypoint)
	consts["autoquad.MavCmdOverrIDeGoto"] = int64(autoquad.MavCmdOverrIDeGoto)
	consts["autoquad.MavCmdPanoramaCreate"] = int64(autoquad.MavCmdPanoramaCreate)
	consts["autoquad.MavCmdPayloadControlDeploy"] = int64(autoquad.MavCmdPayloadControlDeploy)
	consts["autoquad.MavCmdPayloadPrepareDeploy"] = int64(autoquad.MavCmdPayloadPrepareDeploy)
	consts["autoquad.MavCmdPreflightCalibration"] = int64(autoquad.MavCmdPreflightCalibration)
	consts["autoquad.MavCmdPreflightRebootShutdown"] = int64(autoquad.MavCmdPreflightRebootShutdown)
	consts["autoquad.MavCmdPreflightSetSensorOffsets"] = int64(autoquad.MavCmdPreflightSetSensorOffsets)
	consts["autoquad.MavCmdPreflightStorage"] = int64(autoquad.MavCmdPreflightStorage)
	consts["autoquad.MavCmdPreflightUavcan"] = int64(autoquad.MavCmdPreflightUavcan)
	consts["autoquad.MavCmdRequestAutopilotCapabilities"] = int64(autoquad.MavCmdRequestAutopilotCapabilities)
	consts["autoquad.MavCmdRequestCameraCaptureStatus"] = int64(autoquad.MavCmdRequestCameraCaptureStatus)
	consts["autoquad.MavCmdRequestCameraImageCapture"] = int64(autoquad.MavCmdRequestCameraImageCapture)
	consts["autoquad.MavCmdRequestCameraInformation"] = int64(autoquad.MavCmdRequestCameraInformation)
	consts["autoquad.MavCmdRequestCameraSettings"] = int64(autoquad.MavCmdRequestCameraSettings)
	consts["autoquad.MavCmdRequestFlightInformation"] = int64(autoquad.MavCmdRequestFlightInformation)
	consts["autoquad.MavCmdRequestMessage"] = int64(autoquad.MavCmdRequestMessage)
	consts["autoquad.MavCmdRequestProtocolVersion"] = int64(autoquad.MavCmdRequestProtocolVersion)
	consts["autoquad.MavCmdRequestStorageInformation"] = int64(autoquad.MavCmdRequestStorageInformation)
	consts["autoquad.MavCmdRequestVIDeoStreamInformation"] = int64(autoquad.MavCmdRequestVIDeoStreamInformation)
	consts["autoquad.MavCmdRequestVIDeoStreamStatus"] = int64(autoquad.MavCmdRequestVIDeoStreamStatus)
	consts["autoquad.MavCmdResetCameraSettings"] = int64(autoquad.MavCmdResetCameraSettings)
	consts["autoquad.MavCmdSetCameraFocus"] = int64(autoquad.MavCmdSetCameraFocus)
	consts["autoquad.MavCmdSetCameraMode"] = int64(autoquad.MavCmdSetCameraMode)
	consts["autoquad.MavCmdSetCameraZoom"] = int64(autoquad.MavCmdSetCameraZoom)
	consts["autoquad.MavCmdSetGUIDedSubmodeCiRCle"] = int64(autoquad.MavCmdSetGUIDedSubmodeCiRCle)
	consts["autoquad.MavCmdSetGUIDedSubmodeStandard"] = int64(autoquad.MavCmdSetGUIDedSubmodeStandard)
	consts["autoquad.MavCmdSetMessageInterval"] = int64(autoquad.MavCmdSetMessageInterval)
	consts["autoquad.MavCmdSpatialUser1"] = int64(autoquad.MavCmdSpatialUser1)
	consts["autoquad.MavCmdSpatialUser2"] = int64(autoquad.MavCmdSpatialUser2)
	consts["autoquad.MavCmdSpatialUser3"] = int64(autoquad.MavCmdSpatialUser3)
	consts["autoquad.MavCmdSpatialUser4"] = int64(autoquad.MavCmdSpatialUser4)
	consts["autoquad.MavCmdSpatialUser5"] = int64(autoquad.MavCmdSpatialUser5)
	consts["autoquad.MavCmdStartRxPair"] = int64(autoquad.MavCmdStartRxPair)
	consts["autoquad.MavCmdStorageFormat"] = int64(autoquad.MavCmdStorageFormat)
	consts["autoquad.MavCmdUavcanGetNodeInfo"] = int64(autoquad.MavCmdUavcanGetNodeInfo)
	consts["autoquad.MavCmdUser1"] = int64(autoquad.MavCmdUser1)
	consts["autoquad.MavCmdUser2"] = int64(autoquad.MavCmdUser2)
	consts["autoquad.MavCmdUser3"] = int64(autoquad.MavCmdUser3)
	consts["autoquad.MavCmdUser4"] = int64(autoquad.MavCmdUser4)
	consts["autoquad.MavCmdUser5"] = int64(autoquad.MavCmdUser5)
	consts["autoquad.MavCmdVIDeoStartCapture"] = int64(autoquad.MavCmdVIDeoStartCapture)
	consts["autoquad.MavCmdVIDeoStartStreaming"] = int64(autoquad.MavCmdVIDeoStartStreaming)
	consts["autoquad.MavCmdVIDeoStopCapture"] = int64(autoquad.MavCmdVIDeoStopCapture)
	consts["autoquad.MavCmdVIDeoStopStreaming"] = int64(autoquad.MavCmdVIDeoStopStreaming)
	consts["autoquad.MavCmdWaypointUser1"] = int64(autoquad.MavCmdWaypointUser1)
	consts["autoquad.MavCmdWaypointUser2"] = int64(autoquad.MavCmdWaypointUser2)
	consts["autoquad.MavCmdWaypointUser3"] = int64(autoquad.MavCmdWaypointUser3)
	consts["autoquad.MavCmdWaypointUser4"] = int64(autoquad.MavCmdWaypointUser4)
	consts["autoquad.MavCmdWaypointUser5"] = int64(autoquad.MavCmdWaypointUser5)
	consts["autoquad.MavDataStreamAll"] = int64(autoquad.MavDataStreamAll)
	consts["autoquad.MavDataStreamEnumEnd"] = int64(autoquad.MavDataStreamEnumEnd)
	consts["autoquad.MavDataStreamExtendedStatus"] = int64(autoquad.MavDataStreamExtendedStatus)
	consts["autoquad.MavDataStreamExtra1"] = int64(autoquad.MavDataStreamExtra1)
	consts["autoquad.MavDataStreamExtra2"] = int64(autoquad.MavDataStreamExtra2)
	consts["autoquad.MavDataStreamExtra3"] = int64(autoquad.MavDataStreamExtra3)
	consts["autoquad.MavDataStreamPosition"] = int64(autoquad.MavDataStreamPosition)
	consts["autoquad.MavDataStreamPropulsion"] = int64(autoquad.MavDataStreamPropulsion)
	consts["autoquad.MavDataStreamRCChannels"] = int64(autoquad.MavDataStreamRCChannels)
	consts["autoquad.MavDataStreamRawController"] = int64(autoquad.MavDataStreamRawController)
	consts["autoquad.MavDataStreamRawSensors"] = int64(autoquad.MavDataStreamRawSensors)
	consts["common.AdsbAltitudeTypeEnumEnd"] = int64(common.AdsbAltitudeTypeEnumEnd)
	consts["common.AdsbAltitudeTypeGeometric"] = int64(common.AdsbAltitudeTypeGeometric)
	consts["common.AdsbAltitudeTypePressureQnh"] = int64(common.AdsbAltitudeTypePressureQnh)
	consts["common.AdsbEmitterTypeEmergencySurface"] = int64(common.AdsbEmitterTypeEmergencySurface)
	consts["common.AdsbEmitterTypeEnumEnd"] = int64(common.AdsbEmitterTypeEnumEnd)
	consts["common.AdsbEmitterTypeGlIDer"] = int64(common.AdsbEmitterTypeGlIDer)
	consts["common.AdsbEmitterTypeHeavy"] = int64(common.AdsbEmitterTypeHeavy)
	consts["common.AdsbEmitterTypeHighVortexLarge"] = int64(common.AdsbEmitterTypeHighVortexLarge)
	consts["common.AdsbEmitterTypeHighlyManuv"] = int64(common.AdsbEmitterTypeHighlyManuv)
	consts["common.AdsbEmitterTypeLarge"] = int64(common.AdsbEmitterTypeLarge)
	consts["common.AdsbEmitterTypeLight"] = int64(common.AdsbEmitterTypeLight)
	consts["common.AdsbEmitterTypeLighterAir"] = int64(common.AdsbEmitterTypeLighterAir)
	consts["common.AdsbEmitterTypeNoInfo"] = int64(common.AdsbEmitterTypeNoInfo)
	consts["common.AdsbEmitterTypeParachute"] = int64(common.AdsbEmitterTypeParachute)
	consts["common.AdsbEmitterTypePointObstacle"] = int64(common.AdsbEmitterTypePointObstacle)
	consts["common.AdsbEmitterTypeRotocraft"] = int64(common.AdsbEmitterTypeRotocraft)
	consts["common.AdsbEmitterTypeServiceSurface"] = int64(common.AdsbEmitterTypeServiceSurface)
	consts["common.AdsbEmitterTypeSmall"] = int64(common.AdsbEmitterTypeSmall)
	consts["common.AdsbEmitterTypeSpace"] = int64(common.AdsbEmitterTypeSpace)
	consts["common.AdsbEmitterTypeUav"] = int64(common.AdsbEmitterTypeUav)
	consts["common.AdsbEmitterTypeUltraLight"] = int64(common.AdsbEmitterTypeUltraLight)
	consts["common.AdsbEmitterTypeUnassgined3"] = int64(common.AdsbEmitterTypeUnassgined3)
	consts["common.AdsbEmitterTypeUnassigned"] = int64(common.AdsbEmitterTypeUnassigned)
	consts["common.AdsbEmitterTypeUnassigned2"] = int64(common.AdsbEmitterTypeUnassigned2)
	consts["common.AdsbFlagsBaroValID"] = int64(common.AdsbFlagsBaroValID)
	consts["common.AdsbFlagsEnumEnd"] = int64(common.AdsbFlagsEnumEnd)
	consts["common.AdsbFlagsSIMUlated"] = int64(common.AdsbFlagsSIMUlated)
	consts["common.AdsbFlagsSouRCeUat"] = int64(common.AdsbFlagsSouRCeUat)
	consts["common.AdsbFlagsValIDAltitude"] = int64(common.AdsbFlagsValIDAltitude)
	consts["common.AdsbFlagsValIDCallsign"] = int64(common.AdsbFlagsValIDCallsign)
	consts["common.AdsbFlagsValIDCoords"] = int64(common.AdsbFlagsValIDCoords)
	consts["common.AdsbFlagsValIDHeading"] = int64(common.AdsbFlagsValIDHeading)
	consts["common.AdsbFlagsValIDSquawk"] = int64(common.AdsbFlagsValIDSquawk)
	consts["common.AdsbFlagsValIDVelocity"] = int64(common.AdsbFlagsValIDVelocity)
	consts["common.AdsbFlagsVerticalVelocityValID"] = int64(common.AdsbFlagsVerticalVelocityValID)
	consts["common.AisFlagsEnumEnd"] = int64(common.AisFlagsEnumEnd)
	consts["common.AisFlagsHighVelocity"] = int64(common.AisFlagsHighVelocity)
	consts["common.AisFlagsLargeBowDimension"] = int64(common.AisFlagsLargeBowDimension)
	consts["common.AisFlagsLargePortDimension"] = int64(common.AisFlagsLargePortDimension)
	consts["common.AisFlagsLargeStarboardDimension"] = int64(common.AisFlagsLargeStarboardDimension)
	consts["common.AisFlagsLargeSternDimension"] = int64(common.AisFlagsLargeSternDimension)
	consts["common.AisFlagsPositionAccuracy"] = int64(common.AisFlagsPositionAccuracy)
	consts["common.AisFlagsTurnRateSignOnly"] = int64(common.AisFlagsTurnRateSignOnly)
	consts["common.AisFlagsValIDCallsign"] = int64(common.AisFlagsValIDCallsign)
	consts["common.AisFlagsValIDCog"] = int64(common.AisFlagsValIDCog)
	consts["common.AisFlagsValIDDimensions"] = int64(common.AisFlagsValIDDimensions)
	consts["common.AisFlagsValIDName"] = int64(common.AisFlagsValIDName)
	consts["common.AisFlagsValIDTurnRate"] = int64(common.AisFlagsValIDTurnRate)
	consts["common.AisFlagsValIDVelocity"] = int64(common.AisFlagsValIDVelocity)
	consts["common.AisNAVAground"] = int64(common.AisNAVAground)
	consts["common.AisNAVAisSart"] = int64(common.AisNAVAisSart)
	consts["common.AisNAVAnchored"] = int64(common.AisNAVAnchored)
	consts["common.AisNAVDraughtConstrained"] = int64(common.AisNAVDraughtConstrained)
	consts["common.AisNAVFishing"] = int64(common.AisNAVFishing)
	consts["common.AisNAVMoored"] = int64(common.AisNAVMoored)
	consts["common.AisNAVReserved1"] = int64(common.AisNAVReserved1)
	consts["common.AisNAVReserved2"] = int64(common.AisNAVReserved2)
	consts["common.AisNAVReserved3"] = int64(common.AisNAVReserved3)
	consts["common.AisNAVReservedHsc"] = int64(common.AisNAVReservedHsc)
	consts["common.AisNAVReservedWig"] = int64(common.AisNAVReservedWig)
	consts["common.AisNAVRestrictedManoeuverability"] = int64(common.AisNAVRestrictedManoeuverability)
	consts["common.AisNAVSailing"] = int64(common.AisNAVSailing)
	consts["common.AisNAVStatusEnumEnd"] = int64(common.AisNAVStatusEnumEnd)
	consts["common.AisNAVUnCommanded"] = int64(common.AisNAVUnCommanded)
	consts["common.AisNAVUnknown"] = int64(common.AisNAVUnknown)
	consts["common.AisTypeAisTypePassengerHazardousC"] = int64(common.AisTypeAisTypePassengerHazardousC)
	consts["common.AisTypeAisTypePassengerReserved4"] = int64(common.AisTypeAisTypePassengerReserved4)
	consts["common.AisTypeAntiPollution"] = int64(common.AisTypeAntiPollution)
	consts["common.AisTypeCargo"] = int64(common.AisTypeCargo)
	consts["common.AisTypeCargoHazardousA"] = int64(common.AisTypeCargoHazardousA)
	consts["common.AisTypeCargoHazardousB"] = int64(common.AisTypeCargoHazardousB)
	consts["common.AisTypeCargoHazardousC"] = int64(common.AisTypeCargoHazardousC)
	consts["common.AisTypeCargoHazardousD"] = int64(common.AisTypeCargoHazardousD)
	consts["common.AisTypeCargoReserved1"] = int64(common.AisTypeCargoReserved1)
	consts["common.AisTypeCargoReserved2"] = int64(common.AisTypeCargoReserved2)
	consts["common.AisTypeCargoReserved3"] = int64(common.AisTypeCargoReserved3)
	consts["common.AisTypeCargoReserved4"] = int64(common.AisTypeCargoReserved4)
	consts["common.AisTypeCargoUnknown"] = int64(common.AisTypeCargoUnknown)
	consts["common.AisTypeDiving"] = int64(common.AisTypeDiving)
	consts["common.AisTypeDredging"] = int64(common.AisTypeDredging)
	consts["common.AisTypeEnumEnd"] = int64(common.AisTypeEnumEnd)
	consts["common.AisTypeFishing"] = int64(common.AisTypeFishing)
	consts["common.AisTypeHsc"] = int64(common.AisTypeHsc)
	consts["common.AisTypeHscHazardousA"] = int64(common.AisTypeHscHazardousA)
	consts["common.AisTypeHscHazardousB"] = int64(common.AisTypeHscHazardousB)
	consts["common.AisTypeHscHazardousC"] = int64(common.AisTypeHscHazardousC)
	consts["common.AisTypeHscHazardousD"] = int64(common.AisTypeHscHazardousD)
	consts["common.AisTypeHscReserved1"] = int64(common.AisTypeHscReserved1)
	consts["common.AisTypeHscReserved2"] = int64(common.AisTypeHscReserved2)
	consts["common.AisTypeHscReserved3"] = int64(common.AisTypeHscReserved3)
	consts["common.AisTypeHscReserved4"] = int64(common.AisTypeHscReserved4)
	consts["common.AisTypeHscUnknown"] = int64(common.AisTypeHscUnknown)
	consts["common.AisTypeLawEnfoRCement"] = int64(common.AisTypeLawEnfoRCement)
	consts["common.AisTypeMedicalTransport"] = int64(common.AisTypeMedicalTransport)
	consts["common.AisTypeMilitary"] = int64(common.AisTypeMilitary)
	consts["common.AisTypeNonecombatant"] = int64(common.AisTypeNonecombatant)
	consts["common.AisTypeOther"] = int64(common.AisTypeOther)
	consts["common.AisTypeOtherHazardousA"] = int64(common.AisTypeOtherHazardousA)
	consts["common.AisTypeOtherHazardousB"] = int64(common.AisTypeOtherHazardousB)
	consts["common.AisTypeOtherHazardousC"] = int64(common.AisTypeOtherHazardousC)
	consts["common.AisTypeOtherHazardousD"] = int64(common.AisTypeOtherHazardousD)
	consts["common.AisTypeOtherReserved1"] = int64(common.AisTypeOtherReserved1)
	consts["common.AisTypeOtherReserved2"] = int64(common.AisTypeOtherReserved2)
	consts["common.AisTypeOtherReserved3"] = int64(common.AisTypeOtherReserved3)
	consts["common.AisTypeOtherReserved4"] = int64(common.AisTypeOtherReserved4)
	consts["common.AisTypeOtherUnknown"] = int64(common.AisTypeOtherUnknown)
	consts["common.AisTypePassenger"] = int64(common.AisTypePassenger)
	consts["common.AisTypePassengerHazardousA"] = int64(common.AisTypePassengerHazardousA)
	consts["common.AisTypePassengerHazardousB"] = int64(common.AisTypePassengerHazardousB)
	consts["common.AisTypePassengerHazardousD"] = int64(common.AisTypePassengerHazardousD)
	consts["common.AisTypePassengerReserved1"] = int64(common.AisTypePassengerReserved1)
	consts["common.AisTypePassengerReserved2"] = int64(common.AisTypePassengerReserved2)
	consts["common.AisTypePassengerReserved3"] = int64(common.AisTypePassengerReserved3)
	consts["common.AisTypePassengerUnknown"] = int64(common.AisTypePassengerUnknown)
	consts["common.AisTypePilot"] = int64(common.AisTypePilot)
	consts["common.AisTypePleasure"] = int64(common.AisTypePleasure)
	consts["common.AisTypePortTender"] = int64(common.AisTypePortTender)
	consts["common.AisTypeReserved1"] = int64(common.AisTypeReserved1)
	consts["common.AisTypeReserved10"] = int64(common.AisTypeReserved10)
	consts["common.AisTypeReserved11"] = int64(common.AisTypeReserved11)
	consts["common.AisTypeReserved12"] = int64(common.AisTypeReserved12)
	consts["common.AisTypeReserved13"] = int64(common.AisTypeReserved13)
	consts["common.AisTypeReserved14"] = int64(common.AisTypeReserved14)
	consts["common.AisTypeReserved15"] = int64(common.AisTypeReserved15)
	consts["common.AisTypeReserved16"] = int64(common.AisTypeReserved16)
	consts["common.AisTypeReserved17"] = int64(common.AisTypeReserved17)
	consts["common.AisTypeReserved18"] = int64(common.AisTypeReserved18)
	consts["common.AisTypeReserved19"] = int64(common.AisTypeReserved19)
	consts["common.AisTypeReserved2"] = int64(common.AisTypeReserved2)
	consts["common.AisTypeReserved20"] = int64(common.AisTypeReserved20)
	consts["common.AisTypeReserved21"] = int64(common.AisTypeReserved21)
	consts["common.AisTypeReserved3"] = int64(common.AisTypeReserved3)
	consts["common.AisTypeReserved4"] = int64(common.AisTypeReserved4)
	consts["common.AisTypeReserved5"] = int64(common.AisTypeReserved5)
	consts["common.AisTypeReserved6"] = int64(common.AisTypeReserved6)
	consts["common.AisTypeReserved7"] = int64(common.AisTypeReserved7)
	consts["common.AisTypeReserved8"] = int64(common.AisTypeReserved8)
	consts["common.AisTypeReserved9"] = int64(common.AisTypeReserved9)
	consts["common.AisTypeSailing"] = int64(common.AisTypeSailing)
	consts["common.AisTypeSar"] = int64(common.AisTypeSar)
	consts["common.AisTypeSpareLocal1"] = int64(common.AisTypeSpareLocal1)
	consts["common.AisTypeSpareLocal2"] = int64(common.AisTypeSpareLocal2)
	consts["common.AisTypeTanker"] = int64(common.AisTypeTanker)
	consts["common.AisTypeTankerHazardousA"] = int64(common.AisTypeTankerHazardousA)
	consts["common.AisTypeTankerHazardousB"] = int64(common.AisTypeTankerHazardousB)
	consts["common.AisTypeTankerHazardousC"] = int64(common.AisTypeTankerHazardousC)
	consts["common.AisTypeTankerHazardousD"] = int64(common.AisTypeTankerHazardousD)
	consts["common.AisTypeTankerReserved1"] = int64(common.AisTypeTankerReserved1)
	consts["common.AisTypeTankerReserved2"] = int64(common.AisTypeTankerReserved2)
	consts["common.AisTypeTankerReserved3"] = int64(common.AisTypeTankerReserved3)
	consts["common.AisTypeTankerReserved4"] = int64(common.AisTypeTankerReserved4)
	consts["common.AisTypeTankerUnknown"] = int64(common.AisTypeTankerUnknown)
	consts["common.AisTypeTowing"] = int64(common.AisTypeTowing)
	consts["common.AisTypeTowingLarge"] = int64(common.AisTypeTowingLarge)
	consts["common.AisTypeTug"] = int64(common.AisTypeTug)
	consts["common.AisTypeUnknown"] = int64(common.AisTypeUnknown)
	consts["common.AisTypeWig"] = int64(common.AisTypeWig)
	consts["common.AisTypeWigHazardousA"] = int64(common.AisTypeWigHazardousA)
	consts["common.AisTypeWigHazardousB"] = int64(common.AisTypeWigHazardousB)
	consts["common.AisTypeWigHazardousC"] = int64(common.AisTypeWigHazardousC)
	consts["common.AisTypeWigHazardousD"] = int64(common.AisTypeWigHazardousD)
	consts["common.AisTypeWigReserved1"] = int64(common.AisTypeWigReserved1)
	consts["common.AisTypeWigReserved2"] = int64(common.AisTypeWigReserved2)
	consts["common.AisTypeWigReserved3"] = int64(common.AisTypeWigReserved3)
	consts["common.AisTypeWigReserved4"] = int64(common.AisTypeWigReserved4)
	consts["common.AisTypeWigReserved5"] = int64(common.AisTypeWigReserved5)
	consts["common.CameraCapFlagsCanCaptureImageInVIDeoMode"] = int64(common.CameraCapFlagsCanCaptureImageInVIDeoMode)
	consts["common.CameraCapFlagsCanCaptureVIDeoInImageMode"] = int64(common.CameraCapFlagsCanCaptureVIDeoInImageMode)
	consts["common.CameraCapFlagsCaptureImage"] = int64(common.CameraCapFlagsCaptureImage)
	consts["common.CameraCapFlagsCaptureVIDeo"] = int64(common.CameraCapFlagsCaptureVIDeo)
	consts["common.CameraCapFlagsEnumEnd"] = int64(common.CameraCapFlagsEnumEnd)
	consts["common.CameraCapFlagsHasBasicFocus"] = int64(common.CameraCapFlagsHasBasicFocus)
	consts["common.CameraCapFlagsHasBasicZoom"] = int64(common.CameraCapFlagsHasBasicZoom)
	consts["common.CameraCapFlagsHasImageSurveyMode"] = int64(common.CameraCapFlagsHasImageSurveyMode)
	consts["common.CameraCapFlagsHasModes"] = int64(common.CameraCapFlagsHasModes)
	consts["common.CameraCapFlagsHasVIDeoStream"] = int64(common.CameraCapFlagsHasVIDeoStream)
	consts["common.CameraModeEnumEnd"] = int64(common.CameraModeEnumEnd)
	consts["common.CameraModeImage"] = int64(common.CameraModeImage)
	consts["common.CameraModeImageSurvey"] = int64(common.CameraModeImageSurvey)
	consts["common.CameraModeVIDeo"] = int64(common.CameraModeVIDeo)
	consts["common.CameraZoomTypeEnumEnd"] = int64(common.CameraZoomTypeEnumEnd)
	consts["common.CellularNetworkRadioTypeCdma"] = int64(common.CellularNetworkRadioTypeCdma)
	consts["common.CellularNetworkRadioTypeEnumEnd"] = int64(common.CellularNetworkRadioTypeEnumEnd)
	consts["common.CellularNetworkRadioTypeGsm"] = int64(common.CellularNetworkRadioTypeGsm)
	consts["common.CellularNetworkRadioTypeLte"] = int64(common.CellularNetworkRadioTypeLte)
	consts["common.CellularNetworkRadioTypeNone"] = int64(common.CellularNetworkRadioTypeNone)
	consts["common.CellularNetworkRadioTypeWcdma"] = int64(common.CellularNetworkRadioTypeWcdma)
	consts["common.CellularNetworkStatusFlagEnumEnd"] = int64(common.CellularNetworkStatusFlagEnumEnd)
	consts["common.CellularNetworkStatusFlagRoaming"] = int64(common.CellularNetworkStatusFlagRoaming)
	consts["common.ComponentCapFlagsEnumEnd"] = int64(common.ComponentCapFlagsEnumEnd)
	consts["common.ComponentCapFlagsParam"] = int64(common.ComponentCapFlagsParam)
	consts["common.ComponentCapFlagsParamExt"] = int64(common.ComponentCapFlagsParamExt)
	consts["common.EstimatorAccelError"] = int64(common.EstimatorAccelError)
	consts["common.EstimatorAttitude"] = int64(common.EstimatorAttitude)
	consts["common.EstimatorConstPosMode"] = int64(common.EstimatorConstPosMode)
	consts["common.EstimatorGPSGlitch"] = int64(common.EstimatorGPSGlitch)
	consts["common.EstimatorPosHorizAbs"] = int64(common.EstimatorPosHorizAbs)
	consts["common.EstimatorPosHorizRel"] = int64(common.EstimatorPosHorizRel)
	consts["common.EstimatorPosVertAbs"] = int64(common.EstimatorPosVertAbs)
	consts["common.EstimatorPosVertAgl"] = int64(common.EstimatorPosVertAgl)
	consts["common.EstimatorPredPosHorizAbs"] = int64(common.EstimatorPredPosHorizAbs)
	consts["common.EstimatorPredPosHorizRel"] = int64(common.EstimatorPredPosHorizRel)
	consts["common.EstimatorStatusFlagsEnumEnd"] = int64(common.EstimatorStatusFlagsEnumEnd)
	consts["common.EstimatorVelocityHoriz"] = int64(common.EstimatorVelocityHoriz)
	consts["common.EstimatorVelocityVert"] = int64(common.EstimatorVelocityVert)
	consts["common.FenceActionEnumEnd"] = int64(common.FenceActionEnumEnd)
	consts["common.FenceActionGUIDed"] = int64(common.FenceActionGUIDed)
	consts["common.FenceActionGUIDedThrPass"] = int64(common.FenceActionGUIDedThrPass)
	consts["common.FenceActionNone"] = int64(common.FenceActionNone)
	consts["common.FenceActionReport"] = int64(common.FenceActionReport)
	consts["common.FenceActionRtl"] = int64(common.FenceActionRtl)
	consts["common.FenceBreachBoundary"] = int64(common.FenceBreachBoundary)
	consts["common.FenceBreachEnumEnd"] = int64(common.FenceBreachEnumEnd)
	consts["common.FenceBreachMaxalt"] = int64(common.FenceBreachMaxalt)
	consts["common.FenceBreachMinalt"] = int64(common.FenceBreachMinalt)
	consts["common.FenceBreachNone"] = int64(common.FenceBreachNone)
	consts["common.FenceMitigateEnumEnd"] = int64(common.FenceMitigateEnumEnd)
	consts["common.FenceMitigateNone"] = int64(common.FenceMitigateNone)
	consts["common.FenceMitigateUnknown"] = int64(common.FenceMitigateUnknown)
	consts["common.FenceMitigateVelLimit"] = int64(common.FenceMitigateVelLimit)
	consts["common.FirmwareVersionTypeAlpha"] = int64(common.FirmwareVersionTypeAlpha)
	consts["common.FirmwareVersionTypeBeta"] = int64(common.FirmwareVersionTypeBeta)
	consts["common.FirmwareVersionTypeDev"] = int64(common.FirmwareVersionTypeDev)
	consts["common.FirmwareVersionTypeEnumEnd"] = int64(common.FirmwareVersionTypeEnumEnd)
	consts["common.FirmwareVersionTypeOfficial"] = int64(common.FirmwareVersionTypeOfficial)
	consts["common.FirmwareVersionTypeRC"] = int64(common.FirmwareVersionTypeRC)
	consts["common.FocusTypeContinuous"] = int64(common.FocusTypeContinuous)
	consts["common.FocusTypeMeters"] = int64(common.FocusTypeMeters)
	consts["common.FocusTypeRange"] = int64(common.FocusTypeRange)
	consts["common.FocusTypeStep"] = int64(common.FocusTypeStep)
	consts["common.GPSFixType2DFix"] = int64(common.GPSFixType2DFix)
	consts["common.GPSFixType3DFix"] = int64(common.GPSFixType3DFix)
	consts["common.GPSFixTypeDGPS"] = int64(common.GPSFixTypeDGPS)
	consts["common.GPSFixTypeEnumEnd"] = int64(common.GPSFixTypeEnumEnd)
	consts["common.GPSFixTypeNoFix"] = int64(common.GPSFixTypeNoFix)
	consts["common.GPSFixTypeNoGPS"] = int64(common.GPSFixTypeNoGPS)
	consts["common.GPSFixTypePpp"] = int64(common.GPSFixTypePpp)
	consts["common.GPSFixTypeRtkFixed"] = int64(common.GPSFixTypeRtkFixed)
	consts["common.GPSFixTypeRtkFloat"] = int64(common.GPSFixTypeRtkFloat)
	consts["common.GPSFixTypeStatic"] = int64(common.GPSFixTypeStatic)
	consts["common.GPSInputIgnoreFlagAlt"] = int64(common.GPSInputIgnoreFlagAlt)
	consts["common.GPSInputIgnoreFlagHdop"] = int64(common.GPSInputIgnoreFlagHdop)
	consts["common.GPSInputIgnoreFlagHorizontalAccuracy"] = int64(common.GPSInputIgnoreFlagHorizontalAccuracy)
	consts["common.GPSInputIgnoreFlagSpeedAccuracy"] = int64(common.GPSInputIgnoreFlagSpeedAccuracy)
	consts["common.GPSInputIgnoreFlagVdop"] = int64(common.GPSInputIgnoreFlagVdop)
	consts["common.GPSInputIgnoreFlagVelHoriz"] = int64(common.GPSInputIgnoreFlagVelHoriz)
	consts["common.GPSInputIgnoreFlagVelVert"] = int64(common.GPSInputIgnoreFlagVelVert)
	consts["common.GPSInputIgnoreFlagVerticalAccuracy"] = int64(common.GPSInputIgnoreFlagVerticalAccuracy)
	consts["common.GPSInputIgnoreFlagsEnumEnd"] = int64(common.GPSInputIgnoreFlagsEnumEnd)
	consts["common.HlFailureFlag3DAccel"] = int64(common.HlFailureFlag3DAccel)
	consts["common.HlFailureFlag3DGyro"] = int64(common.HlFailureFlag3DGyro)
	consts["common.HlFailureFlag3DMag"] = int64(common.HlFailureFlag3DMag)
	consts["common.HlFailureFlagAbsolutePressure"] = int64(common.HlFailureFlagAbsolutePressure)
	consts["common.HlFailureFlagBattery"] = int64(common.HlFailureFlagBattery)
	consts["common.HlFailureFlagDifferentialPressure"] = int64(common.HlFailureFlagDifferentialPressure)
	consts["common.HlFailureFlagEngine"] = int64(common.HlFailureFlagEngine)
	consts["common.HlFailureFlagEnumEnd"] = int64(common.HlFailureFlagEnumEnd)
	consts["common.HlFailureFlagEstimator"] = int64(common.HlFailureFlagEstimator)
	consts["common.HlFailureFlagGPS"] = int64(common.HlFailureFlagGPS)
	consts["common.HlFailureFlagGeofence"] = int64(common.HlFailureFlagGeofence)
	consts["common.HlFailureFlagMission"] = int64(common.HlFailureFlagMission)
	consts["common.HlFailureFlagOffboardLink"] = int64(common.HlFailureFlagOffboardLink)
	consts["common.HlFailureFlagRCReceiver"] = int64(common.HlFailureFlagRCReceiver)
	consts["common.HlFailureFlagTerrain"] = int64(common.HlFailureFlagTerrain)
	consts["common.LandingTargetTypeEnumEnd"] = int64(common.LandingTargetTypeEnumEnd)
	consts["common.LandingTargetTypeLightBeacon"] = int64(common.LandingTargetTypeLightBeacon)
	consts["common.LandingTargetTypeRadioBeacon"] = int64(common.LandingTargetTypeRadioBeacon)
	consts["common.LandingTargetTypeVisionFIDucial"] = int64(common.LandingTargetTypeVisionFIDucial)
	consts["common.LandingTargetTypeVisionOther"] = int64(common.LandingTargetTypeVisionOther)
	consts["common.MavArmAuthDeniedReasonAirspaceInUse"] = int64(common.MavArmAuthDeniedReasonAirspaceInUse)
	consts["common.MavArmAuthDeniedReasonBadWeather"] = int64(common.MavArmAuthDeniedReasonBadWeather)
	consts["common.MavArmAuthDeniedReasonEnumEnd"] = int64(common.MavArmAuthDeniedReasonEnumEnd)
	consts["common.MavArmAuthDeniedReasonGeneric"] = int64(common.MavArmAuthDeniedReasonGeneric)
	consts["common.MavArmAuthDeniedReasonInvalIDWaypoint"] = int64(common.MavArmAuthDeniedReasonInvalIDWaypoint)
	consts["common.MavArmAuthDeniedReasonNone"] = int64(common.MavArmAuthDeniedReasonNone)
	consts["common.MavArmAuthDeniedReasonTimeout"] = int64(common.MavArmAuthDeniedReasonTimeout)
	consts["common.MavAutopilotAerob"] = int64(common.MavAutopilotAerob)
	consts["common.MavAutopilotAirrails"] = int64(common.MavAutopilotAirrails)
	consts["common.MavAutopilotArdupilotmega"] = int64(common.MavAutopilotArdupilotmega)
	consts["common.MavAutopilotArmazila"] = int64(common.MavAutopilotArmazila)
	consts["common.MavAutopilotAsluav"] = int64(common.MavAutopilotAsluav)
	consts["common.MavAutopilotAutoquad"] = int64(common.MavAutopilotAutoquad)
	consts["common.MavAutopilotEnumEnd"] = int64(common.MavAutopilotEnumEnd)
	consts["common.MavAutopilotFp"] = int64(common.MavAutopilotFp)
	consts["common.MavAutopilotGeneric"] = int64(common.MavAutopilotGeneric)
	consts["common.MavAutopilotGenericMissionFull"] = int64(common.MavAutopilotGenericMissionFull)
	consts["common.MavAutopilotGenericWaypointsAndSimpleNAVigationOnly"] = int64(common.MavAutopilotGenericWaypointsAndSimpleNAVigationOnly)
	consts["common.MavAutopilotGenericWaypointsOnly"] = int64(common.MavAutopilotGenericWaypointsOnly)
	consts["common.MavAutopilotInvalID"] = int64(common.MavAutopilotInvalID)
	consts["common.MavAutopilotOpenpilot"] = int64(common.MavAutopilotOpenpilot)
	consts["common.MavAutopilotPpz"] = int64(common.MavAutopilotPpz)
	consts["common.MavAutopilotPx4"] = int64(common.MavAutopilotPx4)
	consts["common.MavAutopilotReserved"] = int64(common.MavAutopilotReserved)
	consts["common.MavAutopilotSlugs"] = int64(common.MavAutopilotSlugs)
	consts["common.MavAutopilotSmaccmpilot"] = int64(common.MavAutopilotSmaccmpilot)
	consts["common.MavAutopilotSmartap"] = int64(common.MavAutopilotSmartap)
	consts["common.MavAutopilotUdb"] = int64(common.MavAutopilotUdb)
	consts["common.MavBatteryChargeStateCharging"] = int64(common.MavBatteryChargeStateCharging)
	consts["common.MavBatteryChargeStateCritical"] = int64(common.MavBatteryChargeStateCritical)
	consts["common.MavBatteryChargeStateEmergency"] = int64(common.MavBatteryChargeStateEmergency)
	consts["common.MavBatteryChargeStateEnumEnd"] = int64(common.MavBatteryChargeStateEnumEnd)
	consts["common.MavBatteryChargeStateFailed"] = int64(common.MavBatteryChargeStateFailed)
	consts["common.MavBatteryChargeStateLow"] = int64(common.MavBatteryChargeStateLow)
	consts["common.MavBatteryChargeStateOk"] = int64(common.MavBatteryChargeStateOk)
	consts["common.MavBatteryChargeStateUndefined"] = int64(common.MavBatteryChargeStateUndefined)
	consts["common.MavBatteryChargeStateUnhealthy"] = int64(common.MavBatteryChargeStateUnhealthy)
	consts["common.MavBatteryFunctionAll"] = int64(common.MavBatteryFunctionAll)
	consts["common.MavBatteryFunctionAvionics"] = int64(common.MavBatteryFunctionAvionics)
	consts["common.MavBatteryFunctionEnumEnd"] = int64(common.MavBatteryFunctionEnumEnd)
	consts["common.MavBatteryFunctionPropulsion"] = int64(common.MavBatteryFunctionPropulsion)
	consts["common.MavBatteryFunctionUnknown"] = int64(common.MavBatteryFunctionUnknown)
	consts["common.MavBatteryTypeEnumEnd"] = int64(common.MavBatteryTypeEnumEnd)
	consts["common.MavBatteryTypeLife"] = int64(common.MavBatteryTypeLife)
	consts["common.MavBatteryTypeLion"] = int64(common.MavBatteryTypeLion)
	consts["common.MavBatteryTypeLipo"] = int64(common.MavBatteryTypeLipo)
	consts["common.MavBatteryTypeNimh"] = int64(common.MavBatteryTypeNimh)
	consts["common.MavBatteryTypePayload"] = int64(common.MavBatteryTypePayload)
	consts["common.MavBatteryTypeUnknown"] = int64(common.MavBatteryTypeUnknown)
	consts["common.MavCmdAckEnumEnd"] = int64(common.MavCmdAckEnumEnd)
	consts["common.MavCmdAckErrAccessDenied"] = int64(common.MavCmdAckErrAccessDenied)
	consts["common.MavCmdAckErrCoordinateFrameNotSupported"] = int64(common.MavCmdAckErrCoordinateFrameNotSupported)
	consts["common.MavCmdAckErrCoordinatesOutOfRange"] = int64(common.MavCmdAckErrCoordinatesOutOfRange)
	consts["common.MavCmdAckErrFail"] = int64(common.MavCmdAckErrFail)
	consts["common.MavCmdAckErrNotSupported"] = int64(common.MavCmdAckErrNotSupported)
	consts["common.MavCmdAckErrXLatOutOfRange"] = int64(common.MavCmdAckErrXLatOutOfRange)
	consts["common.MavCmdAckErrYLonOutOfRange"] = int64(common.MavCmdAckErrYLonOutOfRange)
	consts["common.MavCmdAckErrZAltOutOfRange"] = int64(common.MavCmdAckErrZAltOutOfRange)
	consts["common.MavCmdAckOk"] = int64(common.MavCmdAckOk)
	consts["common.MavCmdAirframeConfiguration"] = int64(common.MavCmdAirframeConfiguration)
	consts["common.MavCmdArmAuthorizationRequest"] = int64(common.MavCmdArmAuthorizationRequest)
	consts["common.MavCmdComponentArmDisarm"] = int64(common.MavCmdComponentArmDisarm)
	consts["common.MavCmdConditionChangeAlt"] = int64(common.MavCmdConditionChangeAlt)
	consts["common.MavCmdConditionDelay"] = int64(common.MavCmdConditionDelay)
	consts["common.MavCmdConditionDistance"] = int64(common.MavCmdConditionDistance)
	consts["common.MavCmdConditionGate"] = int64(common.MavCmdConditionGate)
	consts["common.MavCmdConditionLast"] = int64(common.MavCmdConditionLast)
	consts["common.MavCmdConditionYaw"] = int64(common.MavCmdConditionYaw)
	consts["common.MavCmdControlHighLatency"] = int64(common.MavCmdControlHighLatency)
	consts["common.MavCmdDoChangeAltitude"] = int64(common.MavCmdDoChangeAltitude)
	consts["common.MavCmdDoChangeSpeed"] = int64(common.MavCmdDoChangeSpeed)
	consts["common.MavCmdDoControlVIDeo"] = int64(common.MavCmdDoControlVIDeo)
	consts["common.MavCmdDoDigicamConfigure"] = int64(common.MavCmdDoDigicamConfigure)
	consts["common.MavCmdDoDigicamControl"] = int64(common.MavCmdDoDigicamControl)
	consts["common.MavCmdDoEngineControl"] = int64(common.MavCmdDoEngineControl)
	consts["common.MavCmdDoFenceEnable"] = int64(common.MavCmdDoFenceEnable)
	consts["common.MavCmdDoFlighttermination"] = int64(common.MavCmdDoFlighttermination)
	consts["common.MavCmdDoFollow"] = int64(common.MavCmdDoFollow)
	consts["common.MavCmdDoFollowReposition"] = int64(common.MavCmdDoFollowReposition)
	consts["common.MavCmdDoGUIDedLimits"] = int64(common.MavCmdDoGUIDedLimits)
	consts["common.MavCmdDoGUIDedMaster"] = int64(common.MavCmdDoGUIDedMaster)
	consts["common.MavCmdDoGoAround"] = int64(common.MavCmdDoGoAround)
	consts["common.MavCmdDoInvertedFlight"] = int64(common.MavCmdDoInvertedFlight)
	consts["common.MavCmdDoJump"] = int64(common.MavCmdDoJump)
	consts["common.MavCmdDoJumpTag"] = int64(common.MavCmdDoJumpTag)
	consts["common.MavCmdDoLandStart"] = int64(common.MavCmdDoLandStart)
	consts["common.MavCmdDoLast"] = int64(common.MavCmdDoLast)
	consts["common.MavCmdDoMotorTest"] = int64(common.MavCmdDoMotorTest)
	consts["common.MavCmdDoMountConfigure"] = int64(common.MavCmdDoMountConfigure)
	consts["common.MavCmdDoMountControl"] = int64(common.MavCmdDoMountControl)
	consts["common.MavCmdDoMountControlQuat"] = int64(common.MavCmdDoMountControlQuat)
	consts["common.MavCmdDoOrbit"] = int64(common.MavCmdDoOrbit)
	consts["common.MavCmdDoParachute"] = int64(common.MavCmdDoParachute)
	consts["common.MavCmdDoPauseContinue"] = int64(common.MavCmdDoPauseContinue)
	consts["common.MavCmdDoRallyLand"] = int64(common.MavCmdDoRallyLand)
	consts["common.MavCmdDoRepeatRelay"] = int64(common.MavCmdDoRepeatRelay)
	consts["common.MavCmdDoRepeatServo"] = int64(common.MavCmdDoRepeatServo)
	consts["common.MavCmdDoReposition"] = int64(common.MavCmdDoReposition)
	consts["common.MavCmdDoSetCamTriggDist"] = int64(common.MavCmdDoSetCamTriggDist)
	consts["common.MavCmdDoSetCamTriggInterval"] = int64(common.MavCmdDoSetCamTriggInterval)
	consts["common.MavCmdDoSetHome"] = int64(common.MavCmdDoSetHome)
	consts["common.MavCmdDoSetMissionCurrent"] = int64(common.MavCmdDoSetMissionCurrent)
	consts["common.MavCmdDoSetMode"] = int64(common.MavCmdDoSetMode)
	consts["common.MavCmdDoSetParameter"] = int64(common.MavCmdDoSetParameter)
	consts["common.MavCmdDoSetRelay"] = int64(common.MavCmdDoSetRelay)
	consts["common.MavCmdDoSetReverse"] = int64(common.MavCmdDoSetReverse)
	consts["common.MavCmdDoSetRoi"] = int64(common.MavCmdDoSetRoi)
	consts["common.MavCmdDoSetRoiLocation"] = int64(common.MavCmdDoSetRoiLocation)
	consts["common.MavCmdDoSetRoiNone"] = int64(common.MavCmdDoSetRoiNone)
	consts["common.MavCmdDoSetRoiSysID"] = int64(common.MavCmdDoSetRoiSysID)
	consts["common.MavCmdDoSetRoiWpnextOffset"] = int64(common.MavCmdDoSetRoiWpnextOffset)
	consts["common.MavCmdDoSetServo"] = int64(common.MavCmdDoSetServo)
	consts["common.MavCmdDoTriggerControl"] = int64(common.MavCmdDoTriggerControl)
	consts["common.MavCmdDoVtolTransition"] = int64(common.MavCmdDoVtolTransition)
	consts["common.MavCmdEnumEnd"] = int64(common.MavCmdEnumEnd)
	consts["common.MavCmdGetHomePosition"] = int64(common.MavCmdGetHomePosition)
	consts["common.MavCmdGetMessageInterval"] = int64(common.MavCmdGetMessageInterval)
	consts["common.MavCmdIlluminatorOnOff"] = int64(common.MavCmdIlluminatorOnOff)
	consts["common.MavCmdImageStartCapture"] = int64(common.MavCmdImageStartCapture)
	consts["common.MavCmdImageStopCapture"] = int64(common.MavCmdImageStopCapture)
	consts["common.MavCmdJumpTag"] = int64(common.MavCmdJumpTag)
	consts["common.MavCmdLoggingStart"] = int64(common.MavCmdLoggingStart)
	consts["common.MavCmdLoggingStop"] = int64(common.MavCmdLoggingStop)
	consts["common.MavCmdMissionStart"] = int64(common.MavCmdMissionStart)
	consts["common.MavCmdNAVContinueAndChangeAlt"] = int64(common.MavCmdNAVContinueAndChangeAlt)
	consts["common.MavCmdNAVDelay"] = int64(common.MavCmdNAVDelay)
	consts["common.MavCmdNAVFenceCiRCleExclusion"] = int64(common.MavCmdNAVFenceCiRCleExclusion)
	consts["common.MavCmdNAVFenceCiRCleInclusion"] = int64(common.MavCmdNAVFenceCiRCleInclusion)
	consts["common.MavCmdNAVFencePolygonVertexExclusion"] = int64(common.MavCmdNAVFencePolygonVertexExclusion)
	consts["common.MavCmdNAVFencePolygonVertexInclusion"] = int64(common.MavCmdNAVFencePolygonVertexInclusion)
	consts["common.MavCmdNAVFenceReturnPoint"] = int64(common.MavCmdNAVFenceReturnPoint)
	consts["common.MavCmdNAVFollow"] = int64(common.MavCmdNAVFollow)
	consts["common.MavCmdNAVGUIDedEnable"] = int64(common.MavCmdNAVGUIDedEnable)
	consts["common.MavCmdNAVLand"] = int64(common.MavCmdNAVLand)
	consts["common.MavCmdNAVLandLocal"] = int64(common.MavCmdNAVLandLocal)
	consts["common.MavCmdNAVLast"] = int64(common.MavCmdNAVLast)
	consts["common.MavCmdNAVLoiterTime"] = int64(common.MavCmdNAVLoiterTime)
	consts["common.MavCmdNAVLoiterToAlt"] = int64(common.MavCmdNAVLoiterToAlt)
	consts["common.MavCmdNAVLoiterTurns"] = int64(common.MavCmdNAVLoiterTurns)
	consts["common.MavCmdNAVLoiterUnlim"] = int64(common.MavCmdNAVLoiterUnlim)
	consts["common.MavCmdNAVPathplanning"] = int64(common.MavCmdNAVPathplanning)
	consts["common.MavCmdNAVPayloadPlace"] = int64(common.MavCmdNAVPayloadPlace)
	consts["common.MavCmdNAVRallyPoint"] = int64(common.MavCmdNAVRallyPoint)
	consts["common.MavCmdNAVReturnToLaunch"] = int64(common.MavCmdNAVReturnToLaunch)
	consts["common.MavCmdNAVRoi"] = int64(common.MavCmdNAVRoi)
	consts["common.MavCmdNAVSetYawSpeed"] = int64(common.MavCmdNAVSetYawSpeed)
	consts["common.MavCmdNAVSplineWaypoint"] = int64(common.MavCmdNAVSplineWaypoint)
	consts["common.MavCmdNAVTakeoff"] = int64(common.MavCmdNAVTakeoff)
	consts["common.MavCmdNAVTakeoffLocal"] = int64(common.MavCmdNAVTakeoffLocal)
	consts["common.MavCmdNAVVtolLand"] = int64(common.MavCmdNAVVtolLand)
	consts["common.MavCmdNAVVtolTakeoff"] = int64(common.MavCmdNAVVtolTakeoff)
	consts["common.MavCmdNAVWaypoint"] = int64(common.MavCmdNAVWaypoint)
	consts["common.MavCmdOverrIDeGoto"] = int64(common.MavCmdOverrIDeGoto)
	consts["common.MavCmdPanoramaCreate"] = int64(common.MavCmdPanoramaCreate)
	consts["common.MavCmdPayloadControlDeploy"] = int64(common.MavCmdPayloadControlDeploy)
	consts["common.MavCmdPayloadPrepareDeploy"] = int64(common.MavCmdPayloadPrepareDeploy)
	consts["common.MavCmdPreflightCalibration"] = int64(common.MavCmdPreflightCalibration)
	consts["common.MavCmdPreflightRebootShutdown"] = int64(common.MavCmdPreflightRebootShutdown)
	consts["common.MavCmdPreflightSetSensorOffsets"] = int64(common.MavCmdPreflightSetSensorOffsets)
	consts["common.MavCmdPreflightStorage"] = int64(common.MavCmdPreflightStorage)
	consts["common.MavCmdPreflightUavcan"] = int64(common.MavCmdPreflightUavcan)
	consts["common.MavCmdRequestAutopilotCapabilities"] = int64(common.MavCmdRequestAutopilotCapabilities)
	consts["common.MavCmdRequestCameraCaptureStatus"] = int64(common.MavCmdRequestCameraCaptureStatus)
	consts["common.MavCmdRequestCameraImageCapture"] = int64(common.MavCmdRequestCameraImageCapture)
	consts["common.MavCmdRequestCameraInformation"] = int64(common.MavCmdRequestCameraInformation)
	consts["common.MavCmdRequestCameraSettings"] = int64(common.MavCmdRequestCameraSettings)
	consts["common.MavCmdRequestFlightInformation"] = int64(common.MavCmdRequestFlightInformation)
	consts["common.MavCmdRequestMessage"] = int64(common.MavCmdRequestMessage)
	consts["common.MavCmdRequestProtocolVersion"] = int64(common.MavCmdRequestProtocolVersion)
	consts["common.MavCmdRequestStorageInformation"] = int64(common.MavCmdRequestStorageInformation)
	consts["common.MavCmdRequestVIDeoStreamInformation"] = int64(common.MavCmdRequestVIDeoStreamInformation)
	consts["common.MavCmdRequestVIDeoStreamStatus"] = int64(common.MavCmdRequestVIDeoStreamStatus)
	consts["common.MavCmdResetCameraSettings"] = int64(common.MavCmdResetCameraSettings)
	consts["common.MavCmdSetCameraFocus"] = int64(common.MavCmdSetCameraFocus)
	consts["common.MavCmdSetCameraMode"] = int64(common.MavCmdSetCameraMode)
	consts["common.MavCmdSetCameraZoom"] = int64(common.MavCmdSetCameraZoom)
	consts["common.MavCmdSetGUIDedSubmodeCiRCle"] = int64(common.MavCmdSetGUIDedSubmodeCiRCle)
	consts["common.MavCmdSetGUIDedSubmodeStandard"] = int64(common.MavCmdSetGUIDedSubmodeStandard)
	consts["common.MavCmdSetMessageInterval"] = int64(common.MavCmdSetMessageInterval)
	consts["common.MavCmdSpatialUser1"] = int64(common.MavCmdSpatialUser1)
	consts["common.MavCmdSpatialUser2"] = int64(common.MavCmdSpatialUser2)
	consts["common.MavCmdSpatialUser3"] = int64(common.MavCmdSpatialUser3)
	consts["common.MavCmdSpatialUser4"] = int64(common.MavCmdSpatialUser4)
	consts["common.MavCmdSpatialUser5"] = int64(common.MavCmdSpatialUser5)
	consts["common.MavCmdStartRxPair"] = int64(common.MavCmdStartRxPair)
	consts["common.MavCmdStorageFormat"] = int64(common.MavCmdStorageFormat)
	consts["common.MavCmdUavcanGetNodeInfo"] = int64(common.MavCmdUavcanGetNodeInfo)
	consts["common.MavCmdUser1"] = int64(common.MavCmdUser1)
	consts["common.MavCmdUser2"] = int64(common.MavCmdUser2)
	consts["common.MavCmdUser3"] = int64(common.MavCmdUser3)
	consts["common.MavCmdUser4"] = int64(common.MavCmdUser4)
	consts["common.MavCmdUser5"] = int64(common.MavCmdUser5)
	consts["common.MavCmdVIDeoStartCapture"] = int64(common.MavCmdVIDeoStartCapture)
	consts["common.MavCmdVIDeoStartStreaming"] = int64(common.MavCmdVIDeoStartStreaming)
	consts["common.MavCmdVIDeoStopCapture"] = int64(common.MavCmdVIDeoStopCapture)
	consts["common.MavCmdVIDeoStopStreaming"] = int64(common.MavCmdVIDeoStopStreaming)
	consts["common.MavCmdWaypointUser1"] = int64(common.MavCmdWaypointUser1)
	consts["common.MavCmdWaypointUser2"] = int64(common.MavCmdWaypointUser2)
	consts["common.MavCmdWaypointUser3"] = int64(common.MavCmdWaypointUser3)
	consts["common.MavCmdWaypointUser4"] = int64(common.MavCmdWaypointUser4)
	consts["common.MavCmdWaypointUser5"] = int64(common.MavCmdWaypointUser5)
	consts["common.MavCollisionActionAscendOrDescend"] = int64(common.MavCollisionActionAscendOrDescend)
	consts["common.MavCollisionActionEnumEnd"] = int64(common.MavCollisionActionEnumEnd)
	consts["common.MavCollisionActionHover"] = int64(common.MavCollisionActionHover)
	consts["common.MavCollisionActionMoveHorizontally"] = int64(common.MavCollisionActionMoveHorizontally)
	consts["common.MavCollisionActionMovePerpendicular"] = int64(common.MavCollisionActionMovePerpendicular)
	consts["common.MavCollisionActionNone"] = int64(common.MavCollisionActionNone)
	consts["common.MavCollisionActionReport"] = int64(common.MavCollisionActionReport)
	consts["common.MavCollisionActionRtl"] = int64(common.MavCollisionActionRtl)
	consts["common.MavCollisionSRCAdsb"] = int64(common.MavCollisionSRCAdsb)
	consts["common.MavCollisionSRCEnumEnd"] = int64(common.MavCollisionSRCEnumEnd)
	consts["common.MavCollisionSRCMavlinkGPSGlobalInt"] = int64(common.MavCollisionSRCMavlinkGPSGlobalInt)
	consts["common.MavCollisionThreatLevelEnumEnd"] = int64(common.MavCollisionThreatLevelEnumEnd)
	consts["common.MavCollisionThreatLevelHigh"] = int64(common.MavCollisionThreatLevelHigh)
	consts["common.MavCollisionThreatLevelLow"] = int64(common.MavCollisionThreatLevelLow)
	consts["common.MavCollisionThreatLevelNone"] = int64(common.MavCollisionThreatLevelNone)
	consts["common.MavCompIDAdsb"] = int64(common.MavCompIDAdsb)
	consts["common.MavCompIDAll"] = int64(common.MavCompIDAll)
	consts["common.MavCompIDAutopilot1"] = int64(common.MavCompIDAutopilot1)
	consts["common.MavCompIDCamera"] = int64(common.MavCompIDCamera)
	consts["common.MavCompIDCamera2"] = int64(common.MavCompIDCamera2)
	consts["common.MavCompIDCamera3"] = int64(common.MavCompIDCamera3)
	consts["common.MavCompIDCamera4"] = int64(common.MavCompIDCamera4)
	consts["common.MavCompIDCamera5"] = int64(common.MavCompIDCamera5)
	consts["common.MavCompIDCamera6"] = int64(common.MavCompIDCamera6)
	consts["common.MavCompIDFlarm"] = int64(common.MavCompIDFlarm)
	consts["common.MavCompIDGPS"] = int64(common.MavCompIDGPS)
	consts["common.MavCompIDGPS2"] = int64(common.MavCompIDGPS2)
	consts["common.MavCompIDGimbal"] = int64(common.MavCompIDGimbal)
	consts["common.MavCompIDGimbal2"] = int64(common.MavCompIDGimbal2)
	consts["common.MavCompIDGimbal3"] = int64(common.MavCompIDGimbal3)
	consts["common.MavCompIDGimbal4"] = int64(common.MavCompIDGimbal4)
	consts["common.MavCompIDGimbal5"] = int64(common.MavCompIDGimbal5)
	consts["common.MavCompIDGimbal6"] = int64(common.MavCompIDGimbal6)
	consts["common.MavCompIDIMU"] = int64(common.MavCompIDIMU)
	consts["common.MavCompIDIMU2"] = int64(common.MavCompIDIMU2)
	consts["common.MavCompIDIMU3"] = int64(common.MavCompIDIMU3)
	consts["common.MavCompIDLog"] = int64(common.MavCompIDLog)
	consts["common.MavCompIDMissionplanner"] = int64(common.MavCompIDMissionplanner)
	consts["common.MavCompIDObstacleAvoIDance"] = int64(common.MavCompIDObstacleAvoIDance)
	consts["common.MavCompIDOsd"] = int64(common.MavCompIDOsd)
	consts["common.MavCompIDPairingManager"] = int64(common.MavCompIDPairingManager)
	consts["common.MavCompIDPathplanner"] = int64(common.MavCompIDPathplanner)
	consts["common.MavCompIDPeripheral"] = int64(common.MavCompIDPeripheral)
	consts["common.MavCompIDQx1Gimbal"] = int64(common.MavCompIDQx1Gimbal)
	consts["common.MavCompIDServo1"] = int64(common.MavCompIDServo1)
	consts["common.MavCompIDServo10"] = int64(common.MavCompIDServo10)
	consts["common.MavCompIDServo11"] = int64(common.MavCompIDServo11)
	consts["common.MavCompIDServo12"] = int64(common.MavCompIDServo12)
	consts["common.MavCompIDServo13"] = int64(common.MavCompIDServo13)
	consts["common.MavCompIDServo14"] = int64(common.MavCompIDServo14)
	consts["common.MavCompIDServo2"] = int64(common.MavCompIDServo2)
	consts["common.MavCompIDServo3"] = int64(common.MavCompIDServo3)
	consts["common.MavCompIDServo4"] = int64(common.MavCompIDServo4)
	consts["common.MavCompIDServo5"] = int64(common.MavCompIDServo5)
	consts["common.MavCompIDServo6"] = int64(common.MavCompIDServo6)
	consts["common.MavCompIDServo7"] = int64(common.MavCompIDServo7)
	consts["common.MavCompIDServo8"] = int64(common.MavCompIDServo8)
	consts["common.MavCompIDServo9"] = int64(common.MavCompIDServo9)
	consts["common.MavCompIDSystemControl"] = int64(common.MavCompIDSystemControl)
	consts["common.MavCompIDTunnelNode"] = int64(common.MavCompIDTunnelNode)
	consts["common.MavCompIDUDPBrIDge"] = int64(common.MavCompIDUDPBrIDge)
	consts["common.MavCompIDUartBrIDge"] = int64(common.MavCompIDUartBrIDge)
	consts["common.MavCompIDUse16"] = int64(common.MavCompIDUse16)
	consts["common.MavCompIDUser1"] = int64(common.MavCompIDUser1)
	consts["common.MavCompIDUser10"] = int64(common.MavCompIDUser10)
	consts["common.MavCompIDUser11"] = int64(common.MavCompIDUser11)
	consts["common.MavCompIDUser12"] = int64(common.MavCompIDUser12)
	consts["common.MavCompIDUser13"] = int64(common.MavCompIDUser13)
	consts["common.MavCompIDUser14"] = int64(common.MavCompIDUser14)
	consts["common.MavCompIDUser15"] = int64(common.MavCompIDUser15)
	consts["common.MavCompIDUser17"] = int64(common.MavCompIDUser17)
	consts["common.MavCompIDUser18"] = int64(common.MavCompIDUser18)
	consts["common.MavCompIDUser19"] = int64(common.MavCompIDUser19)
	consts["common.MavCompIDUser2"] = int64(common.MavCompIDUser2)
	consts["common.MavCompIDUser20"] = int64(common.MavCompIDUser20)
	consts["common.MavCompIDUser21"] = int64(common.MavCompIDUser21)
	consts["common.MavCompIDUser22"] = int64(common.MavCompIDUser22)
	consts["common.MavCompIDUser23"] = int64(common.MavCompIDUser23)
	consts["common.MavCompIDUser24"] = int64(common.MavCompIDUser24)
	consts["common.MavCompIDUser25"] = int64(common.MavCompIDUser25)
	consts["common.MavCompIDUser26"] = int64(common.MavCompIDUser26)
	consts["common.MavCompIDUser27"] = int64(common.MavCompIDUser27)
	consts["common.MavCompIDUser28"] = int64(common.MavCompIDUser28)
	consts["common.MavCompIDUser29"] = int64(common.MavCompIDUser29)
	consts["common.MavCompIDUser3"] = int64(common.MavCompIDUser3)
	consts["common.MavCompIDUser30"] = int64(common.MavCompIDUser30)
	consts["common.MavCompIDUser31"] = int64(common.MavCompIDUser31)
	consts["common.MavCompIDUser32"] = int64(common.MavCompIDUser32)
	consts["common.MavCompIDUser33"] = int64(common.MavCompIDUser33)
	consts["common.MavCompIDUser34"] = int64(common.MavCompIDUser34)
	consts["common.MavCompIDUser35"] = int64(common.MavCompIDUser35)
	consts["common.MavCompIDUser36"] = int64(common.MavCompIDUser36)
	consts["common.MavCompIDUser37"] = int64(common.MavCompIDUser37)
	consts["common.MavCompIDUser38"] = int64(common.MavCompIDUser38)
	consts["common.MavCompIDUser39"] = int64(common.MavCompIDUser39)
	consts["common.MavCompIDUser4"] = int64(common.MavCompIDUser4)
	consts["common.MavCompIDUser40"] = int64(common.MavCompIDUser40)
	consts["common.MavCompIDUser41"] = int64(common.MavCompIDUser41)
	consts["common.MavCompIDUser42"] = int64(common.MavCompIDUser42)
	consts["common.MavCompIDUser43"] = int64(common.MavCompIDUser43)
	consts["common.MavCompIDUser44"] = int64(common.MavCompIDUser44)
	consts["common.MavCompIDUser45"] = int64(common.MavCompIDUser45)
	consts["common.MavCompIDUser46"] = int64(common.MavCompIDUser46)
	consts["common.MavCompIDUser47"] = int64(common.MavCompIDUser47)
	consts["common.MavCompIDUser48"] = int64(common.MavCompIDUser48)
	consts["common.MavCompIDUser49"] = int64(common.MavCompIDUser49)
	consts["common.MavCompIDUser5"] = int64(common.MavCompIDUser5)
	consts["common.MavCompIDUser50"] = int64(common.MavCompIDUser50)
	consts["common.MavCompIDUser51"] = int64(common.MavCompIDUser51)
	consts["common.MavCompIDUser52"] = int64(common.MavCompIDUser52)
	consts["common.MavCompIDUser53"] = int64(common.MavCompIDUser53)
	consts["common.MavCompIDUser54"] = int64(common.MavCompIDUser54)
	consts["common.MavCompIDUser55"] = int64(common.MavCompIDUser55)
	consts["common.MavCompIDUser56"] = int64(common.MavCompIDUser56)
	consts["common.MavCompIDUser57"] = int64(common.MavCompIDUser57)
	consts["common.MavCompIDUser58"] = int64(common.MavCompIDUser58)
	consts["common.MavCompIDUser59"] = int64(common.MavCompIDUser59)
	consts["common.MavCompIDUser6"] = int64(common.MavCompIDUser6)
	consts["common.MavCompIDUser60"] = int64(common.MavCompIDUser60)
	consts["common.MavCompIDUser61"] = int64(common.MavCompIDUser61)
	consts["common.MavCompIDUser62"] = int64(common.MavCompIDUser62)
	consts["common.MavCompIDUser63"] = int64(common.MavCompIDUser63)
	consts["common.MavCompIDUser64"] = int64(common.MavCompIDUser64)
	consts["common.MavCompIDUser65"] = int64(common.MavCompIDUser65)
	consts["common.MavCompIDUser66"] = int64(common.MavCompIDUser66)
	consts["common.MavCompIDUser67"] = int64(common.MavCompIDUser67)
	consts["common.MavCompIDUser68"] = int64(common.MavCompIDUser68)
	consts["common.MavCompIDUser69"] = int64(common.MavCompIDUser69)
	consts["common.MavCompIDUser7"] = int64(common.MavCompIDUser7)
	consts["common.MavCompIDUser70"] = int64(common.MavCompIDUser70)
	consts["common.MavCompIDUser71"] = int64(common.MavCompIDUser71)
	consts["common.MavCompIDUser72"] = int64(common.MavCompIDUser72)
	consts["common.MavCompIDUser73"] = int64(common.MavCompIDUser73)
	consts["common.MavCompIDUser74"] = int64(common.MavCompIDUser74)
	consts["common.MavCompIDUser75"] = int64(common.MavCompIDUser75)
	consts["common.MavCompIDUser8"] = int64(common.MavCompIDUser8)
	consts["common.MavCompIDUser9"] = int64(common.MavCompIDUser9)
	consts["common.MavCompIDVisualInertialOdometry"] = int64(common.MavCompIDVisualInertialOdometry)
	consts["common.MavComponentEnumEnd"] = int64(common.MavComponentEnumEnd)
	consts["common.MavDataStreamAll"] = int64(common.MavDataStreamAll)
	consts["common.MavDataStreamEnumEnd"] = int64(common.MavDataStreamEnumEnd)
	consts["common.MavDataStreamExtendedStatus"] = int64(common.MavDataStreamExtendedStatus)
	consts["common.MavDataStreamExtra1"] = int64(common.MavDataStreamExtra1)
	consts["common.MavDataStreamExtra2"] = int64(common.MavDataStreamExtra2)
	consts["common.MavDataStreamExtra3"] = int64(common.MavDataStreamExtra3)
	consts["common.MavDataStreamPosition"] = int64(common.MavDataStreamPosition)
	consts["common.MavDataStreamRCChannels"] = int64(common.MavDataStreamRCChannels)
	consts["common.MavDataStreamRawController"] = int64(common.MavDataStreamRawController)
	consts["common.MavDataStreamRawSensors"] = int64(common.MavDataStreamRawSensors)
	consts["common.MavDistanceSensorEnumEnd"] = int64(common.MavDistanceSensorEnumEnd)
	consts["common.MavDistanceSensorInfrared"] = int64(common.MavDistanceSensorInfrared)
	consts["common.MavDistanceSensorLaser"] = int64(common.MavDistanceSensorLaser)
	consts["common.MavDistanceSensorRadar"] = int64(common.MavDistanceSensorRadar)
	consts["common.MavDistanceSensorUltrasound"] = int64(common.MavDistanceSensorUltrasound)
	consts["common.MavDistanceSensorUnknown"] = int64(common.MavDistanceSensorUnknown)
	consts["common.MavDoRepositionFlagsChangeMode"] = int64(common.MavDoRepositionFlagsChangeMode)
	consts["common.MavDoRepositionFlagsEnumEnd"] = int64(common.MavDoRepositionFlagsEnumEnd)
	consts["common.MavEstimatorTypeAutopilot"] = int64(common.MavEstimatorTypeAutopilot)
	consts["common.MavEstimatorTypeEnumEnd"] = int64(common.MavEstimatorTypeEnumEnd)
	consts["common.MavEstimatorTypeGPS"] = int64(common.MavEstimatorTypeGPS)
	consts["common.MavEstimatorTypeGPSIns"] = int64(common.MavEstimatorTypeGPSIns)
	consts["common.MavEstimatorTypeLIDar"] = int64(common.MavEstimatorTypeLIDar)
	consts["common.MavEstimatorTypeMocap"] = int64(common.MavEstimatorTypeMocap)
	consts["common.MavEstimatorTypeNaive"] = int64(common.MavEstimatorTypeNaive)
	consts["common.MavEstimatorTypeUnknown"] = int64(common.MavEstimatorTypeUnknown)
	consts["common.MavEstimatorTypeVio"] = int64(common.MavEstimatorTypeVio)
	consts["common.MavEstimatorTypeVision"] = int64(common.MavEstimatorTypeVision)
	consts["common.MavFrameBodyFlu"] = int64(common.MavFrameBodyFlu)
	consts["common.MavFrameBodyFrd"] = int64(common.MavFrameBodyFrd)
	consts["common.MavFrameBodyNed"] = int64(common.MavFrameBodyNed)
	consts["common.MavFrameBodyOffsetNed"] = int64(common.MavFrameBodyOffsetNed)
	consts["common.MavFrameEnumEnd"] = int64(common.MavFrameEnumEnd)
	consts["common.MavFrameEstimEnu"] = int64(common.MavFrameEstimEnu)
	consts["common.MavFrameEstimNed"] = int64(common.MavFrameEstimNed)
	consts["common.MavFrameGlobal"] = int64(common.MavFrameGlobal)
	consts["common.MavFrameGlobalInt"] = int64(common.MavFrameGlobalInt)
	consts["common.MavFrameGlobalRelativeAlt"] = int64(common.MavFrameGlobalRelativeAlt)
	consts["common.MavFrameGlobalRelativeAltInt"] = int64(common.MavFrameGlobalRelativeAltInt)
	consts["common.MavFrameGlobalTerrainAlt"] = int64(common.MavFrameGlobalTerrainAlt)
	consts["common.MavFrameGlobalTerrainAltInt"] = int64(common.MavFrameGlobalTerrainAltInt)
	consts["common.MavFrameLocalEnu"] = int64(common.MavFrameLocalEnu)
	consts["common.MavFrameLocalFlu"] = int64(common.MavFrameLocalFlu)
	consts["common.MavFrameLocalFrd"] = int64(common.MavFrameLocalFrd)
	consts["common.MavFrameLocalNed"] = int64(common.MavFrameLocalNed)
	consts["common.MavFrameLocalOffsetNed"] = int64(common.MavFrameLocalOffsetNed)
	consts["common.MavFrameMission"] = int64(common.MavFrameMission)
	consts["common.MavFrameMocapEnu"] = int64(common.MavFrameMocapEnu)
	consts["common.MavFrameMocapNed"] = int64(common.MavFrameMocapNed)
	consts["common.MavFrameVisionEnu"] = int64(common.MavFrameVisionEnu)
	consts["common.MavFrameVisionNed"] = int64(common.MavFrameVisionNed)
	consts["common.MavGotoDoContinue"] = int64(common.MavGotoDoContinue)
	consts["common.MavGotoDoHold"] = int64(common.MavGotoDoHold)
	consts["common.MavGotoEnumEnd"] = int64(common.MavGotoEnumEnd)
	consts["common.MavGotoHoldAtCurrentPosition"] = int64(common.MavGotoHoldAtCurrentPosition)
	consts["common.MavGotoHoldAtSpecifiedPosition"] = int64(common.MavGotoHoldAtSpecifiedPosition)
	consts["common.MavLandedStateEnumEnd"] = int64(common.MavLandedStateEnumEnd)
	consts["common.MavLandedStateInAir"] = int64(common.MavLandedStateInAir)
	consts["common.MavLandedStateLanding"] = int64(common.MavLandedStateLanding)
	consts["common.MavLandedStateOnGround"] = int64(common.MavLandedStateOnGround)
	consts["common.MavLandedStateTakeoff"] = int64(common.MavLandedStateTakeoff)
	consts["common.MavLandedStateUndefined"] = int64(common.MavLandedStateUndefined)
	consts["common.MavMissionAccepted"] = int64(common.MavMissionAccepted)
	consts["common.MavMissionDenied"] = int64(common.MavMissionDenied)
	consts["common.MavMissionError"] = int64(common.MavMissionError)
	consts["common.MavMissionInvalID"] = int64(common.MavMissionInvalID)
	consts["common.MavMissionInvalIDParam1"] = int64(common.MavMissionInvalIDParam1)
	consts["common.MavMissionInvalIDParam2"] = int64(common.MavMissionInvalIDParam2)
	consts["common.MavMissionInvalIDParam3"] = int64(common.MavMissionInvalIDParam3)
	consts["common.MavMissionInvalIDParam4"] = int64(common.MavMissionInvalIDParam4)
	consts["common.MavMissionInvalIDParam5X"] = int64(common.MavMissionInvalIDParam5X)
	consts["common.MavMissionInvalIDParam6Y"] = int64(common.MavMissionInvalIDParam6Y)
	consts["common.MavMissionInvalIDParam7"] = int64(common.MavMissionInvalIDParam7)
	consts["common.MavMissionInvalIDSequence"] = int64(common.MavMissionInvalIDSequence)
	consts["common.MavMissionNoSpace"] = int64(common.MavMissionNoSpace)
	consts["common.MavMissionOperationCancelled"] = int64(common.MavMissionOperationCancelled)
	consts["common.MavMissionResultEnumEnd"] = int64(common.MavMissionResultEnumEnd)
	consts["common.MavMissionTypeAll"] = int64(common.MavMissionTypeAll)
	consts["common.MavMissionTypeEnumEnd"] = int64(common.MavMissionTypeEnumEnd)
	consts["common.MavMissionTypeFence"] = int64(common.MavMissionTypeFence)
	consts["common.MavMissionTypeMission"] = int64(common.MavMissionTypeMission)
	consts["common.MavMissionTypeRally"] = int64(common.MavMissionTypeRally)
	consts["common.MavMissionUnsupported"] = int64(common.MavMissionUnsupported)
	consts["common.MavMissionUnsupportedFrame"] = int64(common.MavMissionUnsupportedFrame)
	consts["common.MavModeAutoArmed"] = int64(common.MavModeAutoArmed)
	consts["common.MavModeAutoDisarmed"] = int64(common.MavModeAutoDisarmed)
	consts["common.MavModeEnumEnd"] = int64(common.MavModeEnumEnd)
	consts["common.MavModeFlagAutoEnabled"] = int64(common.MavModeFlagAutoEnabled)
	consts["common.MavModeFlagCustomModeEnabled"] = int64(common.MavModeFlagCustomModeEnabled)
	consts["common.MavModeFlagDecodePositionAuto"] = int64(common.MavModeFlagDecodePositionAuto)
	consts["common.MavModeFlagDecodePositionCustomMode"] = int64(common.MavModeFlagDecodePositionCustomMode)
	consts["common.MavModeFlagDecodePositionEnumEnd"] = int64(common.MavModeFlagDecodePositionEnumEnd)
	consts["common.MavModeFlagDecodePositionGUIDed"] = int64(common.MavModeFlagDecodePositionGUIDed)
	consts["common.MavModeFlagDecodePositionHil"] = int64(common.MavModeFlagDecodePositionHil)
	consts["common.MavModeFlagDecodePositionManual"] = int64(common.MavModeFlagDecodePositionManual)
	consts["common.MavModeFlagDecodePositionSafety"] = int64(common.MavModeFlagDecodePositionSafety)
	consts["common.MavModeFlagDecodePositionStabilize"] = int64(common.MavModeFlagDecodePositionStabilize)
	consts["common.MavModeFlagDecodePositionTest"] = int64(common.MavModeFlagDecodePositionTest)
	consts["common.MavModeFlagEnumEnd"] = int64(common.MavModeFlagEnumEnd)
	consts["common.MavModeFlagGUIDedEnabled"] = int64(common.MavModeFlagGUIDedEnabled)
	consts["common.MavModeFlagHilEnabled"] = int64(common.MavModeFlagHilEnabled)
	consts["common.MavModeFlagManualInputEnabled"] = int64(common.MavModeFlagManualInputEnabled)
	consts["common.MavModeFlagSafetyArmed"] = int64(common.MavModeFlagSafetyArmed)
	consts["common.MavModeFlagStabilizeEnabled"] = int64(common.MavModeFlagStabilizeEnabled)
	consts["common.MavModeFlagTestEnabled"] = int64(common.MavModeFlagTestEnabled)
	consts["common.MavModeGUIDedArmed"] = int64(common.MavModeGUIDedArmed)
	consts["common.MavModeGUIDedDisarmed"] = int64(common.MavModeGUIDedDisarmed)
	consts["common.MavModeManualArmed"] = int64(common.MavModeManualArmed)
	consts["common.MavModeManualDisarmed"] = int64(common.MavModeManualDisarmed)
	consts["common.MavModePreflight"] = int64(common.MavModePreflight)
	consts["common.MavModeStabilizeArmed"] = int64(common.MavModeStabilizeArmed)
	consts["common.MavModeStabilizeDisarmed"] = int64(common.MavModeStabilizeDisarmed)
	consts["common.MavModeTestArmed"] = int64(common.MavModeTestArmed)
	consts["common.MavModeTestDisarmed"] = int64(common.MavModeTestDisarmed)
	consts["common.MavMountModeEnumEnd"] = int64(common.MavMountModeEnumEnd)
	consts["common.MavMountModeGPSPoint"] = int64(common.MavMountModeGPSPoint)
	consts["common.MavMountModeMavlinkTargeting"] = int64(common.MavMountModeMavlinkTargeting)
	consts["common.MavMountModeNeutral"] = int64(common.MavMountModeNeutral)
	consts["common.MavMountModeRCTargeting"] = int64(common.MavMountModeRCTargeting)
	consts["common.MavMountModeRetract"] = int64(common.MavMountModeRetract)
	consts["common.MavMountModeSysIDTarget"] = int64(common.MavMountModeSysIDTarget)
	consts["common.MavOdIDAuthTypeEnumEnd"] = int64(common.MavOdIDAuthTypeEnumEnd)
	consts["common.MavOdIDAuthTypeMessageSetSignature"] = int64(common.MavOdIDAuthTypeMessageSetSignature)
	consts["common.MavOdIDAuthTypeNetworkRemoteID"] = int64(common.MavOdIDAuthTypeNetworkRemoteID)
	consts["common.MavOdIDAuthTypeNone"] = int64(common.MavOdIDAuthTypeNone)
	consts["common.MavOdIDAuthTypeOperatorIDSignature"] = int64(common.MavOdIDAuthTypeOperatorIDSignature)
	consts["common.MavOdIDAuthTypeUasIDSignature"] = int64(common.MavOdIDAuthTypeUasIDSignature)
	consts["common.MavOdIDDescTypeEnumEnd"] = int64(common.MavOdIDDescTypeEnumEnd)
	consts["common.MavOdIDDescTypeText"] = int64(common.MavOdIDDescTypeText)
	consts["common.MavOdIDHeightRefEnumEnd"] = int64(common.MavOdIDHeightRefEnumEnd)
	consts["common.MavOdIDHeightRefOverGround"] = int64(common.MavOdIDHeightRefOverGround)
	consts["common.MavOdIDHeightRefOverTakeoff"] = int64(common.MavOdIDHeightRefOverTakeoff)
	consts["common.MavOdIDHorAcc005Nm"] = int64(common.MavOdIDHorAcc005Nm)
	consts["common.MavOdIDHorAcc01Nm"] = int64(common.MavOdIDHorAcc01Nm)
	consts["common.MavOdIDHorAcc03Nm"] = int64(common.MavOdIDHorAcc03Nm)
	consts["common.MavOdIDHorAcc05Nm"] = int64(common.MavOdIDHorAcc05Nm)
	consts["common.MavOdIDHorAcc10Meter"] = int64(common.MavOdIDHorAcc10Meter)
	consts["common.MavOdIDHorAcc10Nm"] = int64(common.MavOdIDHorAcc10Nm)
	consts["common.MavOdIDHorAcc1Meter"] = int64(common.MavOdIDHorAcc1Meter)
	consts["common.MavOdIDHorAcc1Nm"] = int64(common.MavOdIDHorAcc1Nm)
	consts["common.MavOdIDHorAcc2Nm"] = int64(common.MavOdIDHorAcc2Nm)
	consts["common.MavOdIDHorAcc30Meter"] = int64(common.MavOdIDHorAcc30Meter)
	consts["common.MavOdIDHorAcc3Meter"] = int64(common.MavOdIDHorAcc3Meter)
	consts["common.MavOdIDHorAcc4Nm"] = int64(common.MavOdIDHorAcc4Nm)
	consts["common.MavOdIDHorAccEnumEnd"] = int64(common.MavOdIDHorAccEnumEnd)
	consts["common.MavOdIDHorAccUnknown"] = int64(common.MavOdIDHorAccUnknown)
	consts["common.MavOdIDIDTypeCaaRegistrationID"] = int64(common.MavOdIDIDTypeCaaRegistrationID)
	consts["common.MavOdIDIDTypeEnumEnd"] = int64(common.MavOdIDIDTypeEnumEnd)
	consts["common.MavOdIDIDTypeNone"] = int64(common.MavOdIDIDTypeNone)
	consts["common.MavOdIDIDTypeSerialNumber"] = int64(common.MavOdIDIDTypeSerialNumber)
	consts["common.MavOdIDIDTypeUtmAssignedUUID"] = int64(common.MavOdIDIDTypeUtmAssignedUUID)
	consts["common.MavOdIDLocationSRCEnumEnd"] = int64(common.MavOdIDLocationSRCEnumEnd)
	consts["common.MavOdIDLocationSRCFixed"] = int64(common.MavOdIDLocationSRCFixed)
	consts["common.MavOdIDLocationSRCLiveGnss"] = int64(common.MavOdIDLocationSRCLiveGnss)
	consts["common.MavOdIDLocationSRCTakeoff"] = int64(common.MavOdIDLocationSRCTakeoff)
	consts["common.MavOdIDOperatorIDTypeCaa"] = int64(common.MavOdIDOperatorIDTypeCaa)
	consts["common.MavOdIDOperatorIDTypeEnumEnd"] = int64(common.MavOdIDOperatorIDTypeEnumEnd)
	consts["common.MavOdIDSpeedAcc03MetersPerSecond"] = int64(common.MavOdIDSpeedAcc03MetersPerSecond)
	consts["common.MavOdIDSpeedAcc10MetersPerSecond"] = int64(common.MavOdIDSpeedAcc10MetersPerSecond)
	consts["common.MavOdIDSpeedAcc1MetersPerSecond"] = int64(common.MavOdIDSpeedAcc1MetersPerSecond)
	consts["common.MavOdIDSpeedAcc3MetersPerSecond"] = int64(common.MavOdIDSpeedAcc3MetersPerSecond)
	consts["common.MavOdIDSpeedAccEnumEnd"] = int64(common.MavOdIDSpeedAccEnumEnd)
	consts["common.MavOdIDSpeedAccUnknown"] = int64(common.MavOdIDSpeedAccUnknown)
	consts["common.MavOdIDStatusAirborne"] = int64(common.MavOdIDStatusAirborne)
	consts["common.MavOdIDStatusEnumEnd"] = int64(common.MavOdIDStatusEnumEnd)
	consts["common.MavOdIDStatusGround"] = int64(common.MavOdIDStatusGround)
	consts["common.MavOdIDStatusUndeclared"] = int64(common.MavOdIDStatusUndeclared)
	consts["common.MavOdIDTimeAcc01Second"] = int64(common.MavOdIDTimeAcc01Second)
	consts["common.MavOdIDTimeAcc02Second"] = int64(common.MavOdIDTimeAcc02Second)
	consts["common.MavOdIDTimeAcc03Second"] = int64(common.MavOdIDTimeAcc03Second)
	consts["common.MavOdIDTimeAcc04Second"] = int64(common.MavOdIDTimeAcc04Second)
	consts["common.MavOdIDTimeAcc05Second"] = int64(common.MavOdIDTimeAcc05Second)
	consts["common.MavOdIDTimeAcc06Second"] = int64(common.MavOdIDTimeAcc06Second)
	consts["common.MavOdIDTimeAcc07Second"] = int64(common.MavOdIDTimeAcc07Second)
	consts["common.MavOdIDTimeAcc08Second"] = int64(common.MavOdIDTimeAcc08Second)
	consts["common.MavOdIDTimeAcc09Second"] = int64(common.MavOdIDTimeAcc09Second)
	consts["common.MavOdIDTimeAcc10Second"] = int64(common.MavOdIDTimeAcc10Second)
	consts["common.MavOdIDTimeAcc11Second"] = int64(common.MavOdIDTimeAcc11Second)
	consts["common.MavOdIDTimeAcc12Second"] = int64(common.MavOdIDTimeAcc12Second)
	consts["common.MavOdIDTimeAcc13Second"] = int64(common.MavOdIDTimeAcc13Second)
	consts["common.MavOdIDTimeAcc14Second"] = int64(common.MavOdIDTimeAcc14Second)
	consts["common.MavOdIDTimeAcc15Second"] = int64(common.MavOdIDTimeAcc15Second)
	consts["common.MavOdIDTimeAccEnumEnd"] = int64(common.MavOdIDTimeAccEnumEnd)
	consts["common.MavOdIDTimeAccUnknown"] = int64(common.MavOdIDTimeAccUnknown)
	consts["common.MavOdIDUaTypeAeroplane"] = int64(common.MavOdIDUaTypeAeroplane)
	consts["common.MavOdIDUaTypeAirship"] = int64(common.MavOdIDUaTypeAirship)
	consts["common.MavOdIDUaTypeCaptiveBalloon"] = int64(common.MavOdIDUaTypeCaptiveBalloon)
	consts["common.MavOdIDUaTypeEnumEnd"] = int64(common.MavOdIDUaTypeEnumEnd)
	consts["common.MavOdIDUaTypeFreeBalloon"] = int64(common.MavOdIDUaTypeFreeBalloon)
	consts["common.MavOdIDUaTypeFreeFallParachute"] = int64(common.MavOdIDUaTypeFreeFallParachute)
	consts["common.MavOdIDUaTypeGlIDer"] = int64(common.MavOdIDUaTypeGlIDer)
	consts["common.MavOdIDUaTypeGroundObstacle"] = int64(common.MavOdIDUaTypeGroundObstacle)
	consts["common.MavOdIDUaTypeGyroplane"] = int64(common.MavOdIDUaTypeGyroplane)
	consts["common.MavOdIDUaTypeKite"] = int64(common.MavOdIDUaTypeKite)
	consts["common.MavOdIDUaTypeNone"] = int64(common.MavOdIDUaTypeNone)
	consts["common.MavOdIDUaTypeOrnithopter"] = int64(common.MavOdIDUaTypeOrnithopter)
	consts["common.MavOdIDUaTypeOther"] = int64(common.MavOdIDUaTypeOther)
	consts["common.MavOdIDUaTypeRocket"] = int64(common.MavOdIDUaTypeRocket)
	consts["common.MavOdIDUaTypeRotoRCraft"] = int64(common.MavOdIDUaTypeRotoRCraft)
	consts["common.MavOdIDUaTypeTetheredPoweredAiRCraft"] = int64(common.MavOdIDUaTypeTetheredPoweredAiRCraft)
	consts["common.MavOdIDUaTypeVtol"] = int64(common.MavOdIDUaTypeVtol)
	consts["common.MavOdIDVerAcc10Meter"] = int64(common.MavOdIDVerAcc10Meter)
	consts["common.MavOdIDVerAcc150Meter"] = int64(common.MavOdIDVerAcc150Meter)
	consts["common.MavOdIDVerAcc1Meter"] = int64(common.MavOdIDVerAcc1Meter)
	consts["common.MavOdIDVerAcc25Meter"] = int64(common.MavOdIDVerAcc25Meter)
	consts["common.MavOdIDVerAcc3Meter"] = int64(common.MavOdIDVerAcc3Meter)
	consts["common.MavOdIDVerAcc45Meter"] = int64(common.MavOdIDVerAcc45Meter)
	consts["common.MavOdIDVerAccEnumEnd"] = int64(common.MavOdIDVerAccEnumEnd)
	consts["common.MavOdIDVerAccUnknown"] = int64(common.MavOdIDVerAccUnknown)
	consts["common.MavParamExtTypeCustom"] = int64(common.MavParamExtTypeCustom)
	consts["common.MavParamExtTypeEnumEnd"] = int64(common.MavParamExtTypeEnumEnd)
	consts["common.MavParamExtTypeInt16"] = int64(common.MavParamExtTypeInt16)
	consts["common.MavParamExtTypeInt32"] = int64(common.MavParamExtTypeInt32)
	consts["common.MavParamExtTypeInt64"] = int64(common.MavParamExtTypeInt64)
	consts["common.MavParamExtTypeInt8"] = int64(common.MavParamExtTypeInt8)
	consts["common.MavParamExtTypeReal32"] = int64(common.MavParamExtTypeReal32)
	consts["common.MavParamExtTypeReal64"] = int64(common.MavParamExtTypeReal64)
	consts["common.MavParamExtTypeUint16"] = int64(common.MavParamExtTypeUint16)
	consts["common.MavParamExtTypeUint32"] = int64(common.MavParamExtTypeUint32)
	consts["common.MavParamExtTypeUint64"] = int64(common.MavParamExtTypeUint64)
	consts["common.MavParamExtTypeUint8"] = int64(common.MavParamExtTypeUint8)
	consts["common.MavParamTypeEnumEnd"] = int64(common.MavParamTypeEnumEnd)
	consts["common.MavParamTypeInt16"] = int64(common.MavParamTypeInt16)
	consts["common.MavParamTypeInt32"] = int64(common.MavParamTypeInt32)
	consts["common.MavParamTypeInt64"] = int64(common.MavParamTypeInt64)
	consts["common.MavParamTypeInt8"] = int64(common.MavParamTypeInt8)
	consts["common.MavParamTypeReal32"] = int64(common.MavParamTypeReal32)
	consts["common.MavParamTypeReal64"] = int64(common.MavParamTypeReal64)
	consts["common.MavParamTypeUint16"] = int64(common.MavParamTypeUint16)
	consts["common.MavParamTypeUint32"] = int64(common.MavParamTypeUint32)
	consts["common.MavParamTypeUint64"] = int64(common.MavParamTypeUint64)
	consts["common.MavParamTypeUint8"] = int64(common.MavParamTypeUint8)
	consts["common.MavPowerStatusBrickValID"] = int64(common.MavPowerStatusBrickValID)
	consts["common.MavPowerStatusChanged"] = int64(common.MavPowerStatusChanged)
	consts["common.MavPowerStatusEnumEnd"] = int64(common.MavPowerStatusEnumEnd)
	consts["common.MavPowerStatusPeriphHipowerOveRCurrent"] = int64(common.MavPowerStatusPeriphHipowerOveRCurrent)
	consts["common.MavPowerStatusPeriphOveRCurrent"] = int64(common.MavPowerStatusPeriphOveRCurrent)
	consts["common.MavPowerStatusServoValID"] = int64(common.MavPowerStatusServoValID)
	consts["common.MavPowerStatusUsbConnected"] = int64(common.MavPowerStatusUsbConnected)
	consts["common.MavProtocolCapabilityCommandInt"] = int64(common.MavProtocolCapabilityCommandInt)
	consts["common.MavProtocolCapabilityCompassCalibration"] = int64(common.MavProtocolCapabilityCompassCalibration)
	consts["common.MavProtocolCapabilityEnumEnd"] = int64(common.MavProtocolCapabilityEnumEnd)
	consts["common.MavProtocolCapabilityFlightInformation"] = int64(common.MavProtocolCapabilityFlightInformation)
	consts["common.MavProtocolCapabilityFlightTermination"] = int64(common.MavProtocolCapabilityFlightTermination)
	consts["common.MavProtocolCapabilityFtp"] = int64(common.MavProtocolCapabilityFtp)
	consts["common.MavProtocolCapabilityMavlink2"] = int64(common.MavProtocolCapabilityMavlink2)
	consts["common.MavProtocolCapabilityMissionFence"] = int64(common.MavProtocolCapabilityMissionFence)
	consts["common.MavProtocolCapabilityMissionFloat"] = int64(common.MavProtocolCapabilityMissionFloat)
	consts["common.MavProtocolCapabilityMissionInt"] = int64(common.MavProtocolCapabilityMissionInt)
	consts["common.MavProtocolCapabilityMissionRally"] = int64(common.MavProtocolCapabilityMissionRally)
	consts["common.MavProtocolCapabilityParamFloat"] = int64(common.MavProtocolCapabilityParamFloat)
	consts["common.MavProtocolCapabilityParamUnion"] = int64(common.MavProtocolCapabilityParamUnion)
	consts["common.MavProtocolCapabilitySetActuatorTarget"] = int64(common.MavProtocolCapabilitySetActuatorTarget)
	consts["common.MavProtocolCapabilitySetAttitudeTarget"] = int64(common.MavProtocolCapabilitySetAttitudeTarget)
	consts["common.MavProtocolCapabilitySetPositionTargetGlobalInt"] = int64(common.MavProtocolCapabilitySetPositionTargetGlobalInt)
	consts["common.MavProtocolCapabilitySetPositionTargetLocalNed"] = int64(common.MavProtocolCapabilitySetPositionTargetLocalNed)
	consts["common.MavProtocolCapabilityTerrain"] = int64(common.MavProtocolCapabilityTerrain)
	consts["common.MavResultAccepted"] = int64(common.MavResultAccepted)
	consts["common.MavResultDenied"] = int64(common.MavResultDenied)
	consts["common.MavResultEnumEnd"] = int64(common.MavResultEnumEnd)
	consts["common.MavResultFailed"] = int64(common.MavResultFailed)
	consts["common.MavResultInProgress"] = int64(common.MavResultInProgress)
	consts["common.MavResultTemporarilyRejected"] = int64(common.MavResultTemporarilyRejected)
	consts["common.MavResultUnsupported"] = int64(common.MavResultUnsupported)
	consts["common.MavRoiEnumEnd"] = int64(common.MavRoiEnumEnd)
	consts["common.MavRoiLocation"] = int64(common.MavRoiLocation)
	consts["common.MavRoiNone"] = int64(common.MavRoiNone)
	consts["common.MavRoiTarget"] = int64(common.MavRoiTarget)
	consts["common.MavRoiWpindex"] = int64(common.MavRoiWpindex)
	consts["common.MavRoiWpnext"] = int64(common.MavRoiWpnext)
	consts["common.MavSensorOrientationEnumEnd"] = int64(common.MavSensorOrientationEnumEnd)
	consts["common.MavSensorRotationCustom"] = int64(common.MavSensorRotationCustom)
	consts["common.MavSensorRotationNone"] = int64(common.MavSensorRotationNone)
	consts["common.MavSensorRotationPitch180"] = int64(common.MavSensorRotationPitch180)
	consts["common.MavSensorRotationPitch180Yaw270"] = int64(common.MavSensorRotationPitch180Yaw270)
	consts["common.MavSensorRotationPitch180Yaw90"] = int64(common.MavSensorRotationPitch180Yaw90)
	consts["common.MavSensorRotationPitch270"] = int64(common.MavSensorRotationPitch270)
	consts["common.MavSensorRotationPitch315"] = int64(common.MavSensorRotationPitch315)
	consts["common.MavSensorRotationPitch90"] = int64(common.MavSensorRotationPitch90)
	consts["common.MavSensorRotationRoll180"] = int64(common.MavSensorRotationRoll180)
	consts["common.MavSensorRotationRoll180Pitch270"] = int64(common.MavSensorRotationRoll180Pitch270)
	consts["common.MavSensorRotationRoll180Pitch90"] = int64(common.MavSensorRotationRoll180Pitch90)
	consts["common.MavSensorRotationRoll180Yaw135"] = int64(common.MavSensorRotationRoll180Yaw135)
	consts["common.MavSensorRotationRoll180Yaw225"] = int64(common.MavSensorRotationRoll180Yaw225)
	consts["common.MavSensorRotationRoll180Yaw270"] = int64(common.MavSensorRotationRoll180Yaw270)
	consts["common.MavSensorRotationRoll180Yaw315"] = int64(common.MavSensorRotationRoll180Yaw315)
	consts["common.MavSensorRotationRoll180Yaw45"] = int64(common.MavSensorRotationRoll180Yaw45)
	consts["common.MavSensorRotationRoll180Yaw90"] = int64(common.MavSensorRotationRoll180Yaw90)
	consts["common.MavSensorRotationRoll270"] = int64(common.MavSensorRotationRoll270)
	consts["common.MavSensorRotationRoll270Pitch180"] = int64(common.MavSensorRotationRoll270Pitch180)
	consts["common.MavSensorRotationRoll270Pitch270"] = int64(common.MavSensorRotationRoll270Pitch270)
	consts["common.MavSensorRotationRoll270Pitch90"] = int64(common.MavSensorRotationRoll270Pitch90)
	consts["common.MavSensorRotationRoll270Yaw135"] = int64(common.MavSensorRotationRoll270Yaw135)
	consts["common.MavSensorRotationRoll270Yaw45"] = int64(common.MavSensorRotationRoll270Yaw45)
	consts["common.MavSensorRotationRoll270Yaw90"] = int64(common.MavSensorRotationRoll270Yaw90)
	consts["common.MavSensorRotationRoll90"] = int64(common.MavSensorRotationRoll90)
	consts["common.MavSensorRotationRoll90Pitch180"] = int64(common.MavSensorRotationRoll90Pitch180)
	consts["common.MavSensorRotationRoll90Pitch180Yaw90"] = int64(common.MavSensorRotationRoll90Pitch180Yaw90)
	consts["common.MavSensorRotationRoll90Pitch270"] = int64(common.MavSensorRotationRoll90Pitch270)
	consts["common.MavSensorRotationRoll90Pitch315"] = int64(common.MavSensorRotationRoll90Pitch315)
	consts["common.MavSensorRotationRoll90Pitch68Yaw293"] = int64(common.MavSensorRotationRoll90Pitch68Yaw293)
	consts["common.MavSensorRotationRoll90Pitch90"] = int64(common.MavSensorRotationRoll90Pitch90)
	consts["common.MavSensorRotationRoll90Yaw135"] = int64(common.MavSensorRotationRoll90Yaw135)
	consts["common.MavSensorRotationRoll90Yaw270"] = int64(common.MavSensorRotationRoll90Yaw270)
	consts["common.MavSensorRotationRoll90Yaw45"] = int64(common.MavSensorRotationRoll90Yaw45)
	consts["common.MavSensorRotationRoll90Yaw90"] = int64(common.MavSensorRotationRoll90Yaw90)
	consts["common.MavSensorRotationYaw135"] = int64(common.MavSensorRotationYaw135)
	consts["common.MavSensorRotationYaw180"] = int64(common.MavSensorRotationYaw180)
	consts["common.MavSensorRotationYaw225"] = int64(common.MavSensorRotationYaw225)
	consts["common.MavSensorRotationYaw270"] = int64(common.MavSensorRotationYaw270)
	consts["common.MavSensorRotationYaw315"] = int64(common.MavSensorRotationYaw315)
	consts["common.MavSensorRotationYaw45"] = int64(common.MavSensorRotationYaw45)
	consts["common.MavSensorRotationYaw90"] = int64(common.MavSensorRotationYaw90)
	consts["common.MavSeverityAlert"] = int64(common.MavSeverityAlert)
	consts["common.MavSeverityCritical"] = int64(common.MavSeverityCritical)
	consts["common.MavSeverityDebug"] = int64(common.MavSeverityDebug)
	consts["common.MavSeverityEmergency"] = int64(common.MavSeverityEmergency)
	consts["common.MavSeverityEnumEnd"] = int64(common.MavSeverityEnumEnd)
	consts["common.MavSeverityError"] = int64(common.MavSeverityError)
	consts["common.MavSeverityInfo"] = int64(common.MavSeverityInfo)
	consts["common.MavSeverityNotice"] = int64(common.MavSeverityNotice)
	consts["common.MavSeverityWarning"] = int64(common.MavSeverityWarning)
	consts["common.MavSmartBatteryFaultDeepDischarge"] = int64(common.MavSmartBatteryFaultDeepDischarge)
	consts["common.MavSmartBatteryFaultEnumEnd"] = int64(common.MavSmartBatteryFaultEnumEnd)
	consts["common.MavSmartBatteryFaultOverCurrent"] = int64(common.MavSmartBatteryFaultOverCurrent)
	consts["common.MavSmartBatteryFaultOverTemperature"] = int64(common.MavSmartBatteryFaultOverTemperature)
	consts["common.MavSmartBatteryFaultSingleCellFail"] = int64(common.MavSmartBatteryFaultSingleCellFail)
	consts["common.MavSmartBatteryFaultSpikes"] = int64(common.MavSmartBatteryFaultSpikes)
	consts["common.MavSmartBatteryFaultUnderTemperature"] = int64(common.MavSmartBatteryFaultUnderTemperature)
	consts["common.MavStateActive"] = int64(common.MavStateActive)
	consts["common.MavStateBoot"] = int64(common.MavStateBoot)
	consts["common.MavStateCalibrating"] = int64(common.MavStateCalibrating)
	consts["common.MavStateCritical"] = int64(common.MavStateCritical)
	consts["common.MavStateEmergency"] = int64(common.MavStateEmergency)
	consts["common.MavStateEnumEnd"] = int64(common.MavStateEnumEnd)
	consts["common.MavStateFlightTermination"] = int64(common.MavStateFlightTermination)
	consts["common.MavStatePoweroff"] = int64(common.MavStatePoweroff)
	consts["common.MavStateStandby"] = int64(common.MavStateStandby)
	consts["common.MavStateUninit"] = int64(common.MavStateUninit)
	consts["common.MavSysStatusAHRS"] = int64(common.MavSysStatusAHRS)
	consts["common.MavSysStatusGeofence"] = int64(common.MavSysStatusGeofence)
	consts["common.MavSysStatusLogging"] = int64(common.MavSysStatusLogging)
	consts["common.MavSysStatusReverseMotor"] = int64(common.MavSysStatusReverseMotor)
	consts["common.MavSysStatusSensor3DAccel"] = int64(common.MavSysStatusSensor3DAccel)
	consts["common.MavSysStatusSensor3DAccel2"] = int64(common.MavSysStatusSensor3DAccel2)
	consts["common.MavSysStatusSensor3DGyro"] = int64(common.MavSysStatusSensor3DGyro)
	consts["common.MavSysStatusSensor3DGyro2"] = int64(common.MavSysStatusSensor3DGyro2)
	consts["common.MavSysStatusSensor3DMag"] = int64(common.MavSysStatusSensor3DMag)
	consts["common.MavSysStatusSensor3DMag2"] = int64(common.MavSysStatusSensor3DMag2)
	consts["common.MavSysStatusSensorAbsolutePressure"] = int64(common.MavSysStatusSensorAbsolutePressure)
	consts["common.MavSysStatusSensorAngularRateControl"] = int64(common.MavSysStatusSensorAngularRateControl)
	consts["common.MavSysStatusSensorAttitudeStabilization"] = int64(common.MavSysStatusSensorAttitudeStabilization)
	consts["common.MavSysStatusSensorBattery"] = int64(common.MavSysStatusSensorBattery)
	consts["common.MavSysStatusSensorDifferentialPressure"] = int64(common.MavSysStatusSensorDifferentialPressure)
	consts["common.MavSysStatusSensorEnumEnd"] = int64(common.MavSysStatusSensorEnumEnd)
	consts["common.MavSysStatusSensorExternalGroundTruth"] = int64(common.MavSysStatusSensorExternalGroundTruth)
	consts["common.MavSysStatusSensorGPS"] = int64(common.MavSysStatusSensorGPS)
	consts["common.MavSysStatusSensorLaserPosition"] = int64(common.MavSysStatusSensorLaserPosition)
	consts["common.MavSysStatusSensorMotorOutputs"] = int64(common.MavSysStatusSensorMotorOutputs)
	consts["common.MavSysStatusSensorOpticalFlow"] = int64(common.MavSysStatusSensorOpticalFlow)
	consts["common.MavSysStatusSensorProximity"] = int64(common.MavSysStatusSensorProximity)
	consts["common.MavSysStatusSensorRCReceiver"] = int64(common.MavSysStatusSensorRCReceiver)
	consts["common.MavSysStatusSensorSatcom"] = int64(common.MavSysStatusSensorSatcom)
	consts["common.MavSysStatusSensorVisionPosition"] = int64(common.MavSysStatusSensorVisionPosition)
	consts["common.MavSysStatusSensorXyPositionControl"] = int64(common.MavSysStatusSensorXyPositionControl)
	consts["common.MavSysStatusSensorYawPosition"] = int64(common.MavSysStatusSensorYawPosition)
	consts["common.MavSysStatusSensorZAltitudeControl"] = int64(common.MavSysStatusSensorZAltitudeControl)
	consts["common.MavSysStatusTerrain"] = int64(common.MavSysStatusTerrain)
	consts["common.MavTunnelPayloadTypeEnumEnd"] = int64(common.MavTunnelPayloadTypeEnumEnd)
	consts["common.MavTunnelPayloadTypeStorm32Reserved0"] = int64(common.MavTunnelPayloadTypeStorm32Reserved0)
	consts["common.MavTunnelPayloadTypeStorm32Reserved1"] = int64(common.MavTunnelPayloadTypeStorm32Reserved1)
	consts["common.MavTunnelPayloadTypeStorm32Reserved2"] = int64(common.MavTunnelPayloadTypeStorm32Reserved2)
	consts["common.MavTunnelPayloadTypeStorm32Reserved3"] = int64(common.MavTunnelPayloadTypeStorm32Reserved3)
	consts["common.MavTunnelPayloadTypeStorm32Reserved4"] = int64(common.MavTunnelPayloadTypeStorm32Reserved4)
	consts["common.MavTunnelPayloadTypeStorm32Reserved5"] = int64(common.MavTunnelPayloadTypeStorm32Reserved5)
	consts["common.MavTunnelPayloadTypeStorm32Reserved6"] = int64(common.MavTunnelPayloadTypeStorm32Reserved6)
	consts["common.MavTunnelPayloadTypeStorm32Reserved7"] = int64(common.MavTunnelPayloadTypeStorm32Reserved7)
	consts["common.MavTunnelPayloadTypeStorm32Reserved8"] = int64(common.MavTunnelPayloadTypeStorm32Reserved8)
	consts["common.MavTunnelPayloadTypeStorm32Reserved9"] = int64(common.MavTunnelPayloadTypeStorm32Reserved9)
	consts["common.MavTunnelPayloadTypeUnknown"] = int64(common.MavTunnelPayloadTypeUnknown)
	consts["common.MavTypeAdsb"] = int64(common.MavTypeAdsb)
	consts["common.MavTypeAirship"] = int64(common.MavTypeAirship)
	consts["common.MavTypeAntennaTracker"] = int64(common.MavTypeAntennaTracker)
	consts["common.MavTypeCamera"] = int64(common.MavTypeCamera)
	consts["common.MavTypeChargingStation"] = int64(common.MavTypeChargingStation)
	consts["common.MavTypeCoaxial"] = int64(common.MavTypeCoaxial)
	consts["common.MavTypeDodecarotor"] = int64(common.MavTypeDodecarotor)
	consts["common.MavTypeEnumEnd"] = int64(common.MavTypeEnumEnd)
	consts["common.MavTypeFixedWing"] = int64(common.MavTypeFixedWing)
	consts["common.MavTypeFlappingWing"] = int64(common.MavTypeFlappingWing)
	consts["common.MavTypeFlarm"] = int64(common.MavTypeFlarm)
	consts["common.MavTypeFreeBalloon"] = int64(common.MavTypeFreeBalloon)
	consts["common.MavTypeGcs"] = int64(common.MavTypeGcs)
	consts["common.MavTypeGeneric"] = int64(common.MavTypeGeneric)
	consts["common.MavTypeGimbal"] = int64(common.MavTypeGimbal)
	consts["common.MavTypeGroundRover"] = int64(common.MavTypeGroundRover)
	consts["common.MavTypeHelicopter"] = int64(common.MavTypeHelicopter)
	consts["common.MavTypeHexarotor"] = int64(common.MavTypeHexarotor)
	consts["common.MavTypeKite"] = int64(common.MavTypeKite)
	consts["common.MavTypeOctorotor"] = int64(common.MavTypeOctorotor)
	consts["common.MavTypeOnboardController"] = int64(common.MavTypeOnboardController)
	consts["common.MavTypeParafoil"] = int64(common.MavTypeParafoil)
	consts["common.MavTypeQuadrotor"] = int64(common.MavTypeQuadrotor)
	consts["common.MavTypeRocket"] = int64(common.MavTypeRocket)
	consts["common.MavTypeServo"] = int64(common.MavTypeServo)
	consts["common.MavTypeSubmarine"] = int64(common.MavTypeSubmarine)
	consts["common.MavTypeSurfaceBoat"] = int64(common.MavTypeSurfaceBoat)
	consts["common.MavTypeTricopter"] = int64(common.MavTypeTricopter)
	consts["common.MavTypeVtolDuorotor"] = int64(common.MavTypeVtolDuorotor)
	consts["common.MavTypeVtolQuadrotor"] = int64(common.MavTypeVtolQuadrotor)
	consts["common.MavTypeVtolReserved2"] = int64(common.MavTypeVtolReserved2)
	consts["common.MavTypeVtolReserved3"] = int64(common.MavTypeVtolReserved3)
	consts["common.MavTypeVtolReserved4"] = int64(common.MavTypeVtolReserved4)
	consts["common.MavTypeVtolReserved5"] = int64(common.MavTypeVtolReserved5)
	consts["common.MavTypeVtolTiltrotor"] = int64(common.MavTypeVtolTiltrotor)
	consts["common.MavVtolStateEnumEnd"] = int64(common.MavVtolStateEnumEnd)
	consts["common.MavVtolStateFw"] = int64(common.MavVtolStateFw)
	consts["common.MavVtolStateMc"] = int64(common.MavVtolStateMc)
	consts["common.MavVtolStateTransitionToFw"] = int64(common.MavVtolStateTransitionToFw)
	consts["common.MavVtolStateTransitionToMc"] = int64(common.MavVtolStateTransitionToMc)
	consts["common.MavVtolStateUndefined"] = int64(common.MavVtolStateUndefined)
	consts["common.MavlinkDataStreamImgBmp"] = int64(common.MavlinkDataStreamImgBmp)
	consts["common.MavlinkDataStreamImgJpeg"] = int64(common.MavlinkDataStreamImgJpeg)
	consts["common.MavlinkDataStreamImgPgm"] = int64(common.MavlinkDataStreamImgPgm)
	consts["common.MavlinkDataStreamImgPng"] = int64(common.MavlinkDataStreamImgPng)
	consts["common.MavlinkDataStreamImgRaw32U"] = int64(common.MavlinkDataStreamImgRaw32U)
	consts["common.MavlinkDataStreamImgRaw8U"] = int64(common.MavlinkDataStreamImgRaw8U)
	consts["common.MavlinkDataStreamTypeEnumEnd"] = int64(common.MavlinkDataStreamTypeEnumEnd)
	consts["common.MotorTestCompassCal"] = int64(common.MotorTestCompassCal)
	consts["common.MotorTestOrderBoard"] = int64(common.MotorTestOrderBoard)
	consts["common.MotorTestOrderDefault"] = int64(common.MotorTestOrderDefault)
	consts["common.MotorTestOrderEnumEnd"] = int64(common.MotorTestOrderEnumEnd)
	consts["common.MotorTestOrderSequence"] = int64(common.MotorTestOrderSequence)
	consts["common.MotorTestThrottlePeRCent"] = int64(common.MotorTestThrottlePeRCent)
	consts["common.MotorTestThrottlePilot"] = int64(common.MotorTestThrottlePilot)
	consts["common.MotorTestThrottlePwm"] = int64(common.MotorTestThrottlePwm)
	consts["common.MotorTestThrottleTypeEnumEnd"] = int64(common.MotorTestThrottleTypeEnumEnd)
	consts["common.OrbitYawBehaviourEnumEnd"] = int64(common.OrbitYawBehaviourEnumEnd)
	consts["common.OrbitYawBehaviourHoldFrontTangentToCiRCle"] = int64(common.OrbitYawBehaviourHoldFrontTangentToCiRCle)
	consts["common.OrbitYawBehaviourHoldFrontToCiRCleCenter"] = int64(common.OrbitYawBehaviourHoldFrontToCiRCleCenter)
	consts["common.OrbitYawBehaviourHoldInitialHeading"] = int64(common.OrbitYawBehaviourHoldInitialHeading)
	consts["common.OrbitYawBehaviourRCControlled"] = int64(common.OrbitYawBehaviourRCControlled)
	consts["common.OrbitYawBehaviourUncontrolled"] = int64(common.OrbitYawBehaviourUncontrolled)
	consts["common.ParachuteActionEnumEnd"] = int64(common.ParachuteActionEnumEnd)
	consts["common.ParachuteDisable"] = int64(common.ParachuteDisable)
	consts["common.ParachuteEnable"] = int64(common.ParachuteEnable)
	consts["common.ParachuteRelease"] = int64(common.ParachuteRelease)
	consts["common.ParamAckAccepted"] = int64(common.ParamAckAccepted)
	consts["common.ParamAckEnumEnd"] = int64(common.ParamAckEnumEnd)
	consts["common.ParamAckFailed"] = int64(common.ParamAckFailed)
	consts["common.ParamAckInProgress"] = int64(common.ParamAckInProgress)
	consts["common.ParamAckValueUnsupported"] = int64(common.ParamAckValueUnsupported)
	consts["common.PositionTargetTypemaskAxIgnore"] = int64(common.PositionTargetTypemaskAxIgnore)
	consts["common.PositionTargetTypemaskAyIgnore"] = int64(common.PositionTargetTypemaskAyIgnore)
	consts["common.PositionTargetTypemaskAzIgnore"] = int64(common.PositionTargetTypemaskAzIgnore)
	consts["common.PositionTargetTypemaskEnumEnd"] = int64(common.PositionTargetTypemaskEnumEnd)
	consts["common.PositionTargetTypemaskFoRCeSet"] = int64(common.PositionTargetTypemaskFoRCeSet)
	consts["common.PositionTargetTypemaskVxIgnore"] = int64(common.PositionTargetTypemaskVxIgnore)
	consts["common.PositionTargetTypemaskVyIgnore"] = int64(common.PositionTargetTypemaskVyIgnore)
	consts["common.PositionTargetTypemaskVzIgnore"] = int64(common.PositionTargetTypemaskVzIgnore)
	consts["common.PositionTargetTypemaskXIgnore"] = int64(common.PositionTargetTypemaskXIgnore)
	consts["common.PositionTargetTypemaskYIgnore"] = int64(common.PositionTargetTypemaskYIgnore)
	consts["common.PositionTargetTypemaskYawIgnore"] = int64(common.PositionTargetTypemaskYawIgnore)
	consts["common.PositionTargetTypemaskYawRateIgnore"] = int64(common.PositionTargetTypemaskYawRateIgnore)
	consts["common.PositionTargetTypemaskZIgnore"] = int64(common.PositionTargetTypemaskZIgnore)
	consts["common.PrecisionLandModeDisabled"] = int64(common.PrecisionLandModeDisabled)
	consts["common.PrecisionLandModeEnumEnd"] = int64(common.PrecisionLandModeEnumEnd)
	consts["common.PrecisionLandModeOpportunistic"] = int64(common.PrecisionLandModeOpportunistic)
	consts["common.PrecisionLandModeRequired"] = int64(common.PrecisionLandModeRequired)
	consts["common.RCTypeEnumEnd"] = int64(common.RCTypeEnumEnd)
	consts["common.RCTypeSpektrumDsm2"] = int64(common.RCTypeSpektrumDsm2)
	consts["common.RCTypeSpektrumDsmx"] = int64(common.RCTypeSpektrumDsmx)
	consts["common.RtkBaselineCoordinateSystemEcef"] = int64(common.RtkBaselineCoordinateSystemEcef)
	consts["common.RtkBaselineCoordinateSystemEnumEnd"] = int64(common.RtkBaselineCoordinateSystemEnumEnd)
	consts["common.RtkBaselineCoordinateSystemNed"] = int64(common.RtkBaselineCoordinateSystemNed)
	consts["common.SerialControlDevEnumEnd"] = int64(common.SerialControlDevEnumEnd)
	consts["common.SerialControlDevGPS1"] = int64(common.SerialControlDevGPS1)
	consts["common.SerialControlDevGPS2"] = int64(common.SerialControlDevGPS2)
	consts["common.SerialControlDevShell"] = int64(common.SerialControlDevShell)
	consts["common.SerialControlDevTelem1"] = int64(common.SerialControlDevTelem1)
	consts["common.SerialControlDevTelem2"] = int64(common.SerialControlDevTelem2)
	consts["common.SerialControlFlagBlocking"] = int64(common.SerialControlFlagBlocking)
	consts["common.SerialControlFlagEnumEnd"] = int64(common.SerialControlFlagEnumEnd)
	consts["common.SerialControlFlagExclusive"] = int64(common.SerialControlFlagExclusive)
	consts["common.SerialControlFlagMulti"] = int64(common.SerialControlFlagMulti)
	consts["common.SerialControlFlagReply"] = int64(common.SerialControlFlagReply)
	consts["common.SerialControlFlagRespond"] = int64(common.SerialControlFlagRespond)
	consts["common.SerialControlSerial0"] = int64(common.SerialControlSerial0)
	consts["common.SerialControlSerial1"] = int64(common.SerialControlSerial1)
	consts["common.SerialControlSerial2"] = int64(common.SerialControlSerial2)
	consts["common.SerialControlSerial3"] = int64(common.SerialControlSerial3)
	consts["common.SerialControlSerial4"] = int64(common.SerialControlSerial4)
	consts["common.SerialControlSerial5"] = int64(common.SerialControlSerial5)
	consts["common.SerialControlSerial6"] = int64(common.SerialControlSerial6)
	consts["common.SerialControlSerial7"] = int64(common.SerialControlSerial7)
	consts["common.SerialControlSerial8"] = int64(common.SerialControlSerial8)
	consts["common.SerialControlSerial9"] = int64(common.SerialControlSerial9)
	consts["common.SetFocusTypeEnumEnd"] = int64(common.SetFocusTypeEnumEnd)
	consts["common.StorageStatusEmpty"] = int64(common.StorageStatusEmpty)
	consts["common.StorageStatusEnumEnd"] = int64(common.StorageStatusEnumEnd)
	consts["common.StorageStatusNotSupported"] = int64(common.StorageStatusNotSupported)
	consts["common.StorageStatusReady"] = int64(common.StorageStatusReady)
	consts["common.StorageStatusUnformatted"] = int64(common.StorageStatusUnformatted)
	consts["common.TuneFormatEnumEnd"] = int64(common.TuneFormatEnumEnd)
	consts["common.TuneFormatMmlModern"] = int64(common.TuneFormatMmlModern)
	consts["common.TuneFormatQbasic11"] = int64(common.TuneFormatQbasic11)
	consts["common.UavcanNodeHealthCritical"] = int64(common.UavcanNodeHealthCritical)
	consts["common.UavcanNodeHealthEnumEnd"] = int64(common.UavcanNodeHealthEnumEnd)
	consts["common.UavcanNodeHealthError"] = int64(common.UavcanNodeHealthError)
	consts["common.UavcanNodeHealthOk"] = int64(common.UavcanNodeHealthOk)
	consts["common.UavcanNodeHealthWarning"] = int64(common.UavcanNodeHealthWarning)
	consts["common.UavcanNodeModeEnumEnd"] = int64(common.UavcanNodeModeEnumEnd)
	consts["common.UavcanNodeModeInitialization"] = int64(common.UavcanNodeModeInitialization)
	consts["common.UavcanNodeModeMaintenance"] = int64(common.UavcanNodeModeMaintenance)
	consts["common.UavcanNodeModeOffline"] = int64(common.UavcanNodeModeOffline)
	consts["common.UavcanNodeModeOperational"] = int64(common.UavcanNodeModeOperational)
	consts["common.UavcanNodeModeSoftwareUpdate"] = int64(common.UavcanNodeModeSoftwareUpdate)
	consts["common.UnderWay"] = int64(common.UnderWay)
	consts["common.UtmDataAvailFlagsAltitudeAvailable"] = int64(common.UtmDataAvailFlagsAltitudeAvailable)
	consts["common.UtmDataAvailFlagsEnumEnd"] = int64(common.UtmDataAvailFlagsEnumEnd)
	consts["common.UtmDataAvailFlagsHorizontalVeloAvailable"] = int64(common.UtmDataAvailFlagsHorizontalVeloAvailable)
	consts["common.UtmDataAvailFlagsNextWaypointAvailable"] = int64(common.UtmDataAvailFlagsNextWaypointAvailable)
	consts["common.UtmDataAvailFlagsPositionAvailable"] = int64(common.UtmDataAvailFlagsPositionAvailable)
	consts["common.UtmDataAvailFlagsRelativeAltitudeAvailable"] = int64(common.UtmDataAvailFlagsRelativeAltitudeAvailable)
	consts["common.UtmDataAvailFlagsTimeValID"] = int64(common.UtmDataAvailFlagsTimeValID)
	consts["common.UtmDataAvailFlagsUasIDAvailable"] = int64(common.UtmDataAvailFlagsUasIDAvailable)
	consts["common.UtmDataAvailFlagsVerticalVeloAvailable"] = int64(common.UtmDataAvailFlagsVerticalVeloAvailable)
	consts["common.UtmFlightStateAirborne"] = int64(common.UtmFlightStateAirborne)
	consts["common.UtmFlightStateEmergency"] = int64(common.UtmFlightStateEmergency)
	consts["common.UtmFlightStateEnumEnd"] = int64(common.UtmFlightStateEnumEnd)
	consts["common.UtmFlightStateGround"] = int64(common.UtmFlightStateGround)
	consts["common.UtmFlightStateNoctrl"] = int64(common.UtmFlightStateNoctrl)
	consts["common.UtmFlightStateUnknown"] = int64(common.UtmFlightStateUnknown)
	consts["common.VIDeoStreamStatusFlagsEnumEnd"] = int64(common.VIDeoStreamStatusFlagsEnumEnd)
	consts["common.VIDeoStreamStatusFlagsRunning"] = int64(common.VIDeoStreamStatusFlagsRunning)
	consts["common.VIDeoStreamStatusFlagsThermal"] = int64(common.VIDeoStreamStatusFlagsThermal)
	consts["common.VIDeoStreamTypeEnumEnd"] = int64(common.VIDeoStreamTypeEnumEnd)
	consts["common.VIDeoStreamTypeMPEGTsH264"] = int64(common.VIDeoStreamTypeMPEGTsH264)
	consts["common.VIDeoStreamTypeRtpUDP"] = int64(common.VIDeoStreamTypeRtpUDP)
	consts["common.VIDeoStreamTypeRtsp"] = int64(common.VIDeoStreamTypeRtsp)
	consts["common.VIDeoStreamTypeTCPMPEG"] = int64(common.VIDeoStreamTypeTCPMPEG)
	consts["common.VtolTransitionHeadingAny"] = int64(common.VtolTransitionHeadingAny)
	consts["common.VtolTransitionHeadingEnumEnd"] = int64(common.VtolTransitionHeadingEnumEnd)
	consts["common.VtolTransitionHeadingNextWaypoint"] = int64(common.VtolTransitionHeadingNextWaypoint)
	consts["common.VtolTransitionHeadingSpecified"] = int64(common.VtolTransitionHeadingSpecified)
	consts["common.VtolTransitionHeadingTakeoff"] = int64(common.VtolTransitionHeadingTakeoff)
	consts["common.VtolTransitionHeadingVehicleDefault"] = int64(common.VtolTransitionHeadingVehicleDefault)
	consts["common.ZoomTypeContinuous"] = int64(common.ZoomTypeContinuous)
	consts["common.ZoomTypeFocalLength"] = int64(common.ZoomTypeFocalLength)
	consts["common.ZoomTypeRange"] = int64(common.ZoomTypeRange)
	consts["common.ZoomTypeStep"] = int64(common.ZoomTypeStep)
	consts["icarous.IcarousFmsStateApproach"] = int64(icarous.IcarousFmsStateApproach)
	consts["icarous.IcarousFmsStateClimb"] = int64(icarous.IcarousFmsStateClimb)
	consts["icarous.IcarousFmsStateCruise"] = int64(icarous.IcarousFmsStateCruise)
	consts["icarous.IcarousFmsStateEnumEnd"] = int64(icarous.IcarousFmsStateEnumEnd)
	consts["icarous.IcarousFmsStateIDle"] = int64(icarous.IcarousFmsStateIDle)
	consts["icarous.IcarousFmsStateLand"] = int64(icarous.IcarousFmsStateLand)
	consts["icarous.IcarousFmsStateTakeoff"] = int64(icarous.IcarousFmsStateTakeoff)
	consts["icarous.IcarousTrackBandTypeNear"] = int64(icarous.IcarousTrackBandTypeNear)
	consts["icarous.IcarousTrackBandTypeNone"] = int64(icarous.IcarousTrackBandTypeNone)
	consts["icarous.IcarousTrackBandTypeRecovery"] = int64(icarous.IcarousTrackBandTypeRecovery)
	consts["icarous.IcarousTrackBandTypesEnumEnd"] = int64(icarous.IcarousTrackBandTypesEnumEnd)
	consts["matrixpilot.MavCmdAirframeConfiguration"] = int64(matrixpilot.MavCmdAirframeConfiguration)
	consts["matrixpilot.MavCmdArmAuthorizationRequest"] = int64(matrixpilot.MavCmdArmAuthorizationRequest)
	consts["matrixpilot.MavCmdComponentArmDisarm"] = int64(matrixpilot.MavCmdComponentArmDisarm)
	consts["matrixpilot.MavCmdConditionChangeAlt"] = int64(matrixpilot.MavCmdConditionChangeAlt)
	consts["matrixpilot.MavCmdConditionDelay"] = int64(matrixpilot.MavCmdConditionDelay)
	consts["matrixpilot.MavCmdConditionDistance"] = int64(matrixpilot.MavCmdConditionDistance)
	consts["matrixpilot.MavCmdConditionGate"] = int64(matrixpilot.MavCmdConditionGate)
	consts["matrixpilot.MavCmdConditionLast"] = int64(matrixpilot.MavCmdConditionLast)
	consts["matrixpilot.MavCmdConditionYaw"] = int64(matrixpilot.MavCmdConditionYaw)
	consts["matrixpilot.MavCmdControlHighLatency"] = int64(matrixpilot.MavCmdControlHighLatency)
	consts["matrixpilot.MavCmdDoChangeAltitude"] = int64(matrixpilot.MavCmdDoChangeAltitude)
	consts["matrixpilot.MavCmdDoChangeSpeed"] = int64(matrixpilot.MavCmdDoChangeSpeed)
	consts["matrixpilot.MavCmdDoControlVIDeo"] = int64(matrixpilot.MavCmdDoControlVIDeo)
	consts["matrixpilot.MavCmdDoDigicamConfigure"] = int64(matrixpilot.MavCmdDoDigicamConfigure)
	consts["matrixpilot.MavCmdDoDigicamControl"] = int64(matrixpilot.MavCmdDoDigicamControl)
	consts["matrixpilot.MavCmdDoEngineControl"] = int64(matrixpilot.MavCmdDoEngineControl)
	consts["matrixpilot.MavCmdDoFenceEnable"] = int64(matrixpilot.MavCmdDoFenceEnable)
	consts["matrixpilot.MavCmdDoFlighttermination"] = int64(matrixpilot.MavCmdDoFlighttermination)
	consts["matrixpilot.MavCmdDoFollow"] = int64(matrixpilot.MavCmdDoFollow)
	consts["matrixpilot.MavCmdDoFollowReposition"] = int64(matrixpilot.MavCmdDoFollowReposition)
	consts["matrixpilot.MavCmdDoGUIDedLimits"] = int64(matrixpilot.MavCmdDoGUIDedLimits)
	consts["matrixpilot.MavCmdDoGUIDedMaster"] = int64(matrixpilot.MavCmdDoGUIDedMaster)
	consts["matrixpilot.MavCmdDoGoAround"] = int64(matrixpilot.MavCmdDoGoAround)
	consts["matrixpilot.MavCmdDoInvertedFlight"] = int64(matrixpilot.MavCmdDoInvertedFlight)
	consts["matrixpilot.MavCmdDoJump"] = int64(matrixpilot.MavCmdDoJump)
	consts["matrixpilot.MavCmdDoJumpTag"] = int64(matrixpilot.MavCmdDoJumpTag)
	consts["matrixpilot.MavCmdDoLandStart"] = int64(matrixpilot.MavCmdDoLandStart)
	consts["matrixpilot.MavCmdDoLast"] = int64(matrixpilot.MavCmdDoLast)
	consts["matrixpilot.MavCmdDoMotorTest"] = int64(matrixpilot.MavCmdDoMotorTest)
	consts["matrixpilot.MavCmdDoMountConfigure"] = int64(matrixpilot.MavCmdDoMountConfigure)
	consts["matrixpilot.MavCmdDoMountControl"] = int64(matrixpilot.MavCmdDoMountControl)
	consts["matrixpilot.MavCmdDoMountControlQuat"] = int64(matrixpilot.MavCmdDoMountControlQuat)
	consts["matrixpilot.MavCmdDoOrbit"] = int64(matrixpilot.MavCmdDoOrbit)
	consts["matrixpilot.MavCmdDoParachute"] = int64(matrixpilot.MavCmdDoParachute)
	consts["matrixpilot.MavCmdDoPauseContinue"] = int64(matrixpilot.MavCmdDoPauseContinue)
	consts["matrixpilot.MavCmdDoRallyLand"] = int64(matrixpilot.MavCmdDoRallyLand)
	consts["matrixpilot.MavCmdDoRepeatRelay"] = int64(matrixpilot.MavCmdDoRepeatRelay)
	consts["matrixpilot.MavCmdDoRepeatServo"] = int64(matrixpilot.MavCmdDoRepeatServo)
	consts["matrixpilot.MavCmdDoReposition"] = int64(matrixpilot.MavCmdDoReposition)
	consts["matrixpilot.MavCmdDoSetCamTriggDist"] = int64(matrixpilot.MavCmdDoSetCamTriggDist)
	consts["matrixpilot.MavCmdDoSetCamTriggInterval"] = int64(matrixpilot.MavCmdDoSetCamTriggInterval)
	consts["matrixpilot.MavCmdDoSetHome"] = int64(matrixpilot.MavCmdDoSetHome)
	consts["matrixpilot.MavCmdDoSetMissionCurrent"] = int64(matrixpilot.MavCmdDoSetMissionCurrent)
	consts["matrixpilot.MavCmdDoSetMode"] = int64(matrixpilot.MavCmdDoSetMode)
	consts["matrixpilot.MavCmdDoSetParameter"] = int64(matrixpilot.MavCmdDoSetParameter)
	consts["matrixpilot.MavCmdDoSetRelay"] = int64(matrixpilot.MavCmdDoSetRelay)
	consts["matrixpilot.MavCmdDoSetReverse"] = int64(matrixpilot.MavCmdDoSetReverse)
	consts["matrixpilot.MavCmdDoSetRoi"] = int64(matrixpilot.MavCmdDoSetRoi)
	consts["matrixpilot.MavCmdDoSetRoiLocation"] = int64(matrixpilot.MavCmdDoSetRoiLocation)
	consts["matrixpilot.MavCmdDoSetRoiNone"] = int64(matrixpilot.MavCmdDoSetRoiNone)
	consts["matrixpilot.MavCmdDoSetRoiSysID"] = int64(matrixpilot.MavCmdDoSetRoiSysID)
	consts["matrixpilot.MavCmdDoSetRoiWpnextOffset"] = int64(matrixpilot.MavCmdDoSetRoiWpnextOffset)
	consts["matrixpilot.MavCmdDoSetServo"] = int64(matrixpilot.MavCmdDoSetServo)
	consts["matrixpilot.MavCmdDoTriggerControl"] = int64(matrixpilot.MavCmdDoTriggerControl)
	consts["matrixpilot.MavCmdDoVtolTransition"] = int64(matrixpilot.MavCmdDoVtolTransition)
	consts["matrixpilot.MavCmdEnumEnd"] = int64(matrixpilot.MavCmdEnumEnd)
	consts["matrixpilot.MavCmdGetHomePosition"] = int64(matrixpilot.MavCmdGetHomePosition)
	consts["matrixpilot.MavCmdGetMessageInterval"] = int64(matrixpilot.MavCmdGetMessageInterval)
	consts["matrixpilot.MavCmdIlluminatorOnOff"] = int64(matrixpilot.MavCmdIlluminatorOnOff)
	consts["matrixpilot.MavCmdImageStartCapture"] = int64(matrixpilot.MavCmdImageStartCapture)
	consts["matrixpilot.MavCmdImageStopCapture"] = int64(matrixpilot.MavCmdImageStopCapture)
	consts["matrixpilot.MavCmdJumpTag"] = int64(matrixpilot.MavCmdJumpTag)
	consts["matrixpilot.MavCmdLoggingStart"] = int64(matrixpilot.MavCmdLoggingStart)
	consts["matrixpilot.MavCmdLoggingStop"] = int64(matrixpilot.MavCmdLoggingStop)
	consts["matrixpilot.MavCmdMissionStart"] = int64(matrixpilot.MavCmdMissionStart)
	consts["matrixpilot.MavCmdNAVContinueAndChangeAlt"] = int64(matrixpilot.MavCmdNAVContinueAndChangeAlt)
	consts["matrixpilot.MavCmdNAVDelay"] = int64(matrixpilot.MavCmdNAVDelay)
	consts["matrixpilot.MavCmdNAVFenceCiRCleExclusion"] = int64(matrixpilot.MavCmdNAVFenceCiRCleExclusion)
	consts["matrixpilot.MavCmdNAVFenceCiRCleInclusion"] = int64(matrixpilot.MavCmdNAVFenceCiRCleInclusion)
	consts["matrixpilot.MavCmdNAVFencePolygonVertexExclusion"] = int64(matrixpilot.MavCmdNAVFencePolygonVertexExclusion)
	consts["matrixpilot.MavCmdNAVFencePolygonVertexInclusion"] = int64(matrixpilot.MavCmdNAVFencePolygonVertexInclusion)
	consts["matrixpilot.MavCmdNAVFenceReturnPoint"] = int64(matrixpilot.MavCmdNAVFenceReturnPoint)
	consts["matrixpilot.MavCmdNAVFollow"] = int64(matrixpilot.MavCmdNAVFollow)
	consts["matrixpilot.MavCmdNAVGUIDedEnable"] = int64(matrixpilot.MavCmdNAVGUIDedEnable)
	consts["matrixpilot.MavCmdNAVLand"] = int64(matrixpilot.MavCmdNAVLand)
	consts["matrixpilot.MavCmdNAVLandLocal"] = int64(matrixpilot.MavCmdNAVLandLocal)
	consts["matrixpilot.MavCmdNAVLast"] = int64(matrixpilot.MavCmdNAVLast)
	consts["matrixpilot.MavCmdNAVLoiterTime"] = int64(matrixpilot.MavCmdNAVLoiterTime)
	consts["matrixpilot.MavCmdNAVLoiterToAlt"] = int64(matrixpilot.MavCmdNAVLoiterToAlt)
	consts["matrixpilot.MavCmdNAVLoiterTurns"] = int64(matrixpilot.MavCmdNAVLoiterTurns)
	consts["matrixpilot.MavCmdNAVLoiterUnlim"] = int64(matrixpilot.MavCmdNAVLoiterUnlim)
	consts["matrixpilot.MavCmdNAVPathplanning"] = int64(matrixpilot.MavCmdNAVPathplanning)
	consts["matrixpilot.MavCmdNAVPayloadPlace"] = int64(matrixpilot.MavCmdNAVPayloadPlace)
	consts["matrixpilot.MavCmdNAVRallyPoint"] = int64(matrixpilot.MavCmdNAVRallyPoint)
	consts["matrixpilot.MavCmdNAVReturnToLaunch"] = int64(matrixpilot.MavCmdNAVReturnToLaunch)
	consts["matrixpilot.MavCmdNAVRoi"] = int64(matrixpilot.MavCmdNAVRoi)
	consts["matrixpilot.MavCmdNAVSetYawSpeed"] = int64(matrixpilot.MavCmdNAVSetYawSpeed)
	consts["matrixpilot.MavCmdNAVSplineWaypoint"] = int64(matrixpilot.MavCmdNAVSplineWaypoint)
	consts["matrixpilot.MavCmdNAVTakeoff"] = int64(matrixpilot.MavCmdNAVTakeoff)
	consts["matrixpilot.MavCmdNAVTakeoffLocal"] = int64(matrixpilot.MavCmdNAVTakeoffLocal)
	consts["matrixpilot.MavCmdNAVVtolLand"] = int64(matrixpilot.MavCmdNAVVtolLand)
	consts["matrixpilot.MavCmdNAVVtolTakeoff"] = int64(matrixpilot.MavCmdNAVVtolTakeoff)
	consts["matrixpilot.MavCmdNAVWaypoint"] = int64(matrixpilot.MavCmdNAVWaypoint)
	consts["matrixpilot.MavCmdOverrIDeGoto"] = int64(matrixpilot.MavCmdOverrIDeGoto)
	consts["matrixpilot.MavCmdPanoramaCreate"] = int64(matrixpilot.MavCmdPanoramaCreate)
	consts["matrixpilot.MavCmdPayloadControlDeploy"] = int64(matrixpilot.MavCmdPayloadControlDeploy)
	consts["matrixpilot.MavCmdPayloadPrepareDeploy"] = int64(matrixpilot.MavCmdPayloadPrepareDeploy)
	consts["matrixpilot.MavCmdPreflightCalibration"] = int64(matrixpilot.MavCmdPreflightCalibration)
	consts["matrixpilot.MavCmdPreflightRebootShutdown"] = int64(matrixpilot.MavCmdPreflightRebootShutdown)
	consts["matrixpilot.MavCmdPreflightSetSensorOffsets"] = int64(matrixpilot.MavCmdPreflightSetSensorOffsets)
	consts["matrixpilot.MavCmdPreflightStorage"] = int64(matrixpilot.MavCmdPreflightStorage)
	consts["matrixpilot.MavCmdPreflightStorageAdvanced"] = int64(matrixpilot.MavCmdPreflightStorageAdvanced)
	consts["matrixpilot.MavCmdPreflightUavcan"] = int64(matrixpilot.MavCmdPreflightUavcan)
	consts["matrixpilot.MavCmdRequestAutopilotCapabilities"] = int64(matrixpilot.MavCmdRequestAutopilotCapabilities)
	consts["matrixpilot.MavCmdRequestCameraCaptureStatus"] = int64(matrixpilot.MavCmdRequestCameraCaptureStatus)
	consts["matrixpilot.MavCmdRequestCameraImageCapture"] = int64(matrixpilot.MavCmdRequestCameraImageCapture)
	consts["matrixpilot.MavCmdRequestCameraInformation"] = int64(matrixpilot.MavCmdRequestCameraInformation)
	consts["matrixpilot.MavCmdRequestCameraSettings"] = int64(matrixpilot.MavCmdRequestCameraSettings)
	consts["matrixpilot.MavCmdRequestFlightInformation"] = int64(matrixpilot.MavCmdRequestFlightInformation)
	consts["matrixpilot.MavCmdRequestMessage"] = int64(matrixpilot.MavCmdRequestMessage)
	consts["matrixpilot.MavCmdRequestProtocolVersion"] = int64(matrixpilot.MavCmdRequestProtocolVersion)
	consts["matrixpilot.MavCmdRequestStorageInformation"] = int64(matrixpilot.MavCmdRequestStorageInformation)
	consts["matrixpilot.MavCmdRequestVIDeoStreamInformation"] = int64(matrixpilot.MavCmdRequestVIDeoStreamInformation)
	consts["matrixpilot.MavCmdRequestVIDeoStreamStatus"] = int64(matrixpilot.MavCmdRequestVIDeoStreamStatus)
	consts["matrixpilot.MavCmdResetCameraSettings"] = int64(matrixpilot.MavCmdResetCameraSettings)
	consts["matrixpilot.MavCmdSetCameraFocus"] = int64(matrixpilot.MavCmdSetCameraFocus)
	consts["matrixpilot.MavCmdSetCameraMode"] = int64(matrixpilot.MavCmdSetCameraMode)
	consts["matrixpilot.MavCmdSetCameraZoom"] = int64(matrixpilot.MavCmdSetCameraZoom)
	consts["matrixpilot.MavCmdSetGUIDedSubmodeCiRCle"] = int64(matrixpilot.MavCmdSetGUIDedSubmodeCiRCle)
	consts["matrixpilot.MavCmdSetGUIDedSubmodeStandard"] = int64(matrixpilot.MavCmdSetGUIDedSubmodeStandard)
	consts["matrixpilot.MavCmdSetMessageInterval"] = int64(matrixpilot.MavCmdSetMessageInterval)
	consts["matrixpilot.MavCmdSpatialUser1"] = int64(matrixpilot.MavCmdSpatialUser1)
	consts["matrixpilot.MavCmdSpatialUser2"] = int64(matrixpilot.MavCmdSpatialUser2)
	consts["matrixpilot.MavCmdSpatialUser3"] = int64(matrixpilot.MavCmdSpatialUser3)
	consts["matrixpilot.MavCmdSpatialUser4"] = int64(matrixpilot.MavCmdSpatialUser4)
	consts["matrixpilot.MavCmdSpatialUser5"] = int64(matrixpilot.MavCmdSpatialUser5)
	consts["matrixpilot.MavCmdStartRxPair"] = int64(matrixpilot.MavCmdStartRxPair)
	consts["matrixpilot.MavCmdStorageFormat"] = int64(matrixpilot.MavCmdStorageFormat)
	consts["matrixpilot.MavCmdUavcanGetNodeInfo"] = int64(matrixpilot.MavCmdUavcanGetNodeInfo)
	consts["matrixpilot.MavCmdUser1"] = int64(matrixpilot.MavCmdUser1)
	consts["matrixpilot.MavCmdUser2"] = int64(matrixpilot.MavCmdUser2)
	consts["matrixpilot.MavCmdUser3"] = int64(matrixpilot.MavCmdUser3)
	consts["matrixpilot.MavCmdUser4"] = int64(matrixpilot.MavCmdUser4)
	consts["matrixpilot.MavCmdUser5"] = int64(matrixpilot.MavCmdUser5)
	consts["matrixpilot.MavCmdVIDeoStartCapture"] = int64(matrixpilot.MavCmdVIDeoStartCapture)
	consts["matrixpilot.MavCmdVIDeoStartStreaming"] = int64(matrixpilot.MavCmdVIDeoStartStreaming)
	consts["matrixpilot.MavCmdVIDeoStopCapture"] = int64(matrixpilot.MavCmdVIDeoStopCapture)
	consts["matrixpilot.MavCmdVIDeoStopStreaming"] = int64(matrixpilot.MavCmdVIDeoStopStreaming)
	consts["matrixpilot.MavCmdWaypointUser1"] = int64(matrixpilot.MavCmdWaypointUser1)
	consts["matrixpilot.MavCmdWaypointUser2"] = int64(matrixpilot.MavCmdWaypointUser2)
	consts["matrixpilot.MavCmdWaypointUser3"] = int64(matrixpilot.MavCmdWaypointUser3)
	consts["matrixpilot.MavCmdWaypointUser4"] = int64(matrixpilot.MavCmdWaypointUser4)
	consts["matrixpilot.MavCmdWaypointUser5"] = int64(matrixpilot.MavCmdWaypointUser5)
	consts["matrixpilot.MavPfsCmdClearAll"] = int64(matrixpilot.MavPfsCmdClearAll)
	consts["matrixpilot.MavPfsCmdClearSpecific"] = int64(matrixpilot.MavPfsCmdClearSpecific)
	consts["matrixpilot.MavPfsCmdDoNothing"] = int64(matrixpilot.MavPfsCmdDoNothing)
	consts["matrixpilot.MavPfsCmdReadAll"] = int64(matrixpilot.MavPfsCmdReadAll)
	consts["matrixpilot.MavPfsCmdReadSpecific"] = int64(matrixpilot.MavPfsCmdReadSpecific)
	consts["matrixpilot.MavPfsCmdWriteAll"] = int64(matrixpilot.MavPfsCmdWriteAll)
	consts["matrixpilot.MavPfsCmdWriteSpecific"] = int64(matrixpilot.MavPfsCmdWriteSpecific)
	consts["matrixpilot.MavPreflightStorageActionEnumEnd"] = int64(matrixpilot.MavPreflightStorageActionEnumEnd)
	consts["slugs.ControlSurfaceFlagEnumEnd"] = int64(slugs.ControlSurfaceFlagEnumEnd)
	consts["slugs.ControlSurfaceFlagLeftAileron"] = int64(slugs.ControlSurfaceFlagLeftAileron)
	consts["slugs.ControlSurfaceFlagLeftElevator"] = int64(slugs.ControlSurfaceFlagLeftElevator)
	consts["slugs.ControlSurfaceFlagLeftFlap"] = int64(slugs.ControlSurfaceFlagLeftFlap)
	consts["slugs.ControlSurfaceFlagRightAileron"] = int64(slugs.ControlSurfaceFlagRightAileron)
	consts["slugs.ControlSurfaceFlagRightElevator"] = int64(slugs.ControlSurfaceFlagRightElevator)
	consts["slugs.ControlSurfaceFlagRightFlap"] = int64(slugs.ControlSurfaceFlagRightFlap)
	consts["slugs.ControlSurfaceFlagRudder"] = int64(slugs.ControlSurfaceFlagRudder)
	consts["slugs.ControlSurfaceFlagThrottle"] = int64(slugs.ControlSurfaceFlagThrottle)
	consts["slugs.MavCmdAirframeConfiguration"] = int64(slugs.MavCmdAirframeConfiguration)
	consts["slugs.MavCmdArmAuthorizationRequest"] = int64(slugs.MavCmdArmAuthorizationRequest)
	consts["slugs.MavCmdComponentArmDisarm"] = int64(slugs.MavCmdComponentArmDisarm)
	consts["slugs.MavCmdConditionChangeAlt"] = int64(slugs.MavCmdConditionChangeAlt)
	consts["slugs.MavCmdConditionDelay"] = int64(slugs.MavCmdConditionDelay)
	consts["slugs.MavCmdConditionDistance"] = int64(slugs.MavCmdConditionDistance)
	consts["slugs.MavCmdConditionGate"] = int64(slugs.MavCmdConditionGate)
	consts["slugs.MavCmdConditionLast"] = int64(slugs.MavCmdConditionLast)
	consts["slugs.MavCmdConditionYaw"] = int64(slugs.MavCmdConditionYaw)
	consts["slugs.MavCmdControlHighLatency"] = int64(slugs.MavCmdControlHighLatency)
	consts["slugs.MavCmdDoChangeAltitude"] = int64(slugs.MavCmdDoChangeAltitude)
	consts["slugs.MavCmdDoChangeSpeed"] = int64(slugs.MavCmdDoChangeSpeed)
	consts["slugs.MavCmdDoControlVIDeo"] = int64(slugs.MavCmdDoControlVIDeo)
	consts["slugs.MavCmdDoDigicamConfigure"] = int64(slugs.MavCmdDoDigicamConfigure)
	consts["slugs.MavCmdDoDigicamControl"] = int64(slugs.MavCmdDoDigicamControl)
	consts["slugs.MavCmdDoEngineControl"] = int64(slugs.MavCmdDoEngineControl)
	consts["slugs.MavCmdDoFenceEnable"] = int64(slugs.MavCmdDoFenceEnable)
	consts["slugs.MavCmdDoFlighttermination"] = int64(slugs.MavCmdDoFlighttermination)
	consts["slugs.MavCmdDoFollow"] = int64(slugs.MavCmdDoFollow)
	consts["slugs.MavCmdDoFollowReposition"] = int64(slugs.MavCmdDoFollowReposition)
	consts["slugs.MavCmdDoGUIDedLimits"] = int64(slugs.MavCmdDoGUIDedLimits)
	consts["slugs.MavCmdDoGUIDedMaster"] = int64(slugs.MavCmdDoGUIDedMaster)
	consts["slugs.MavCmdDoGoAround"] = int64(slugs.MavCmdDoGoAround)
	consts["slugs.MavCmdDoInvertedFlight"] = int64(slugs.MavCmdDoInvertedFlight)
	consts["slugs.MavCmdDoJump"] = int64(slugs.MavCmdDoJump)
	consts["slugs.MavCmdDoJumpTag"] = int64(slugs.MavCmdDoJumpTag)
	consts["slugs.MavCmdDoLandStart"] = int64(slugs.MavCmdDoLandStart)
	consts["slugs.MavCmdDoLast"] = int64(slugs.MavCmdDoLast)
	consts["slugs.MavCmdDoMotorTest"] = int64(slugs.MavCmdDoMotorTest)
	consts["slugs.MavCmdDoMountConfigure"] = int64(slugs.MavCmdDoMountConfigure)
	consts["slugs.MavCmdDoMountControl"] = int64(slugs.MavCmdDoMountControl)
	consts["slugs.MavCmdDoMountControlQuat"] = int64(slugs.MavCmdDoMountControlQuat)
	consts["slugs.MavCmdDoNothing"] = int64(slugs.MavCmdDoNothing)
	consts["slugs.MavCmdDoOrbit"] = int64(slugs.MavCmdDoOrbit)
	consts["slugs.MavCmdDoParachute"] = int64(slugs.MavCmdDoParachute)
	consts["slugs.MavCmdDoPauseContinue"] = int64(slugs.MavCmdDoPauseContinue)
	consts["slugs.MavCmdDoRallyLand"] = int64(slugs.MavCmdDoRallyLand)
	consts["slugs.MavCmdDoRepeatRelay"] = int64(slugs.MavCmdDoRepeatRelay)
	consts["slugs.MavCmdDoRepeatServo"] = int64(slugs.MavCmdDoRepeatServo)
	consts["slugs.MavCmdDoReposition"] = int64(slugs.MavCmdDoReposition)
	consts["slugs.MavCmdDoSetCamTriggDist"] = int64(slugs.MavCmdDoSetCamTriggDist)
	consts["slugs.MavCmdDoSetCamTriggInterval"] = int64(slugs.MavCmdDoSetCamTriggInterval)
	consts["slugs.MavCmdDoSetHome"] = int64(slugs.MavCmdDoSetHome)
	consts["slugs.MavCmdDoSetMissionCurrent"] = int64(slugs.MavCmdDoSetMissionCurrent)
	consts["slugs.MavCmdDoSetMode"] = int64(slugs.MavCmdDoSetMode)
	consts["slugs.MavCmdDoSetParameter"] = int64(slugs.MavCmdDoSetParameter)
	consts["slugs.MavCmdDoSetRelay"] = int64(slugs.MavCmdDoSetRelay)
	consts["slugs.MavCmdDoSetReverse"] = int64(slugs.MavCmdDoSetReverse)
	consts["slugs.MavCmdDoSetRoi"] = int64(slugs.MavCmdDoSetRoi)
	consts["slugs.MavCmdDoSetRoiLocation"] = int64(slugs.MavCmdDoSetRoiLocation)
	consts["slugs.MavCmdDoSetRoiNone"] = int64(slugs.MavCmdDoSetRoiNone)
	consts["slugs.MavCmdDoSetRoiSysID"] = int64(slugs.MavCmdDoSetRoiSysID)
	consts["slugs.MavCmdDoSetRoiWpnextOffset"] = int64(slugs.MavCmdDoSetRoiWpnextOffset)
	consts["slugs.MavCmdDoSetServo"] = int64(slugs.MavCmdDoSetServo)
	consts["slugs.MavCmdDoTriggerControl"] = int64(slugs.MavCmdDoTriggerControl)
	consts["slugs.MavCmdDoVtolTransition"] = int64(slugs.MavCmdDoVtolTransition)
	consts["slugs.MavCmdEnumEnd"] = int64(slugs.MavCmdEnumEnd)
	consts["slugs.MavCmdGetHomePosition"] = int64(slugs.MavCmdGetHomePosition)
	consts["slugs.MavCmdGetMIDLevelCommands"] = int64(slugs.MavCmdGetMIDLevelCommands)
	consts["slugs.MavCmdGetMessageInterval"] = int64(slugs.MavCmdGetMessageInterval)
	consts["slugs.MavCmdIlluminatorOnOff"] = int64(slugs.MavCmdIlluminatorOnOff)
	consts["slugs.MavCmdImageStartCapture"] = int64(slugs.MavCmdImageStartCapture)
	consts["slugs.MavCmdImageStopCapture"] = int64(slugs.MavCmdImageStopCapture)
	consts["slugs.MavCmdJumpTag"] = int64(slugs.MavCmdJumpTag)
	consts["slugs.MavCmdLoggingStart"] = int64(slugs.MavCmdLoggingStart)
	consts["slugs.MavCmdLoggingStop"] = int64(slugs.MavCmdLoggingStop)
	consts["slugs.MavCmdMIDlevelStorage"] = int64(slugs.MavCmdMIDlevelStorage)
	consts["slugs.MavCmdMissionStart"] = int64(slugs.MavCmdMissionStart)
	consts["slugs.MavCmdNAVContinueAndChangeAlt"] = int64(slugs.MavCmdNAVContinueAndChangeAlt)
	consts["slugs.MavCmdNAVDelay"] = int64(slugs.MavCmdNAVDelay)
	consts["slugs.MavCmdNAVFenceCiRCleExclusion"] = int64(slugs.MavCmdNAVFenceCiRCleExclusion)
	consts["slugs.MavCmdNAVFenceCiRCleInclusion"] = int64(slugs.MavCmdNAVFenceCiRCleInclusion)
	consts["slugs.MavCmdNAVFencePolygonVertexExclusion"] = int64(slugs.MavCmdNAVFencePolygonVertexExclusion)
	consts["slugs.MavCmdNAVFencePolygonVertexInclusion"] = int64(slugs.MavCmdNAVFencePolygonVertexInclusion)
	consts["slugs.MavCmdNAVFenceReturnPoint"] = int64(slugs.MavCmdNAVFenceReturnPoint)
	consts["slugs.MavCmdNAVFollow"] = int64(slugs.MavCmdNAVFollow)
	consts["slugs.MavCmdNAVGUIDedEnable"] = int64(slugs.MavCmdNAVGUIDedEnable)
	consts["slugs.MavCmdNAVLand"] = int64(slugs.MavCmdNAVLand)
	consts["slugs.MavCmdNAVLandLocal"] = int64(slugs.MavCmdNAVLandLocal)
	consts["slugs.MavCmdNAVLast"] = int64(slugs.MavCmdNAVLast)
	consts["slugs.MavCmdNAVLoiterTime"] = int64(slugs.MavCmdNAVLoiterTime)
	consts["slugs.MavCmdNAVLoiterToAlt"] = int64(slugs.MavCmdNAVLoiterToAlt)
	consts["slugs.MavCmdNAVLoiterTurns"] = int64(slugs.MavCmdNAVLoiterTurns)
	consts["slugs.MavCmdNAVLoiterUnlim"] = int64(slugs.MavCmdNAVLoiterUnlim)
	consts["slugs.MavCmdNAVPathplanning"] = int64(slugs.MavCmdNAVPathplanning)
	consts["slugs.MavCmdNAVPayloadPlace"] = int64(slugs.MavCmdNAVPayloadPlace)
	consts["slugs.MavCmdNAVRallyPoint"] = int64(slugs.MavCmdNAVRallyPoint)
	consts["slugs.MavCmdNAVReturnToLaunch"] = int64(slugs.MavCmdNAVReturnToLaunch)
	consts["slugs.MavCmdNAVRoi"] = int64(slugs.MavCmdNAVRoi)
	consts["slugs.MavCmdNAVSetYawSpeed"] = int64(slugs.MavCmdNAVSetYawSpeed)
	consts["slugs.MavCmdNAVSplineWaypoint"] = int64(slugs.MavCmdNAVSplineWaypoint)
	consts["slugs.MavCmdNAVTakeoff"] = int64(slugs.MavCmdNAVTakeoff)
	consts["slugs.MavCmdNAVTakeoffLocal"] = int64(slugs.MavCmdNAVTakeoffLocal)
	consts["slugs.MavCmdNAVVtolLand"] = int64(slugs.MavCmdNAVVtolLand)
	consts["slugs.MavCmdNAVVtolTakeoff"] = int64(slugs.MavCmdNAVVtolTakeoff)
	consts["slugs.MavCmdNAVWaypoint"] = int64(slugs.MavCmdNAVWaypoint)
	consts["slugs.MavCmdOverrIDeGoto"] = int64(slugs.MavCmdOverrIDeGoto)
	consts["slugs.MavCmdPanoramaCreate"] = int64(slugs.MavCmdPanoramaCreate)
	consts["slugs.MavCmdPayloadControlDeploy"] = int64(slugs.MavCmdPayloadControlDeploy)
	consts["slugs.MavCmdPayloadPrepareDeploy"] = int64(slugs.MavCmdPayloadPrepareDeploy)
	consts["slugs.MavCmdPreflightCalibration"] = int64(slugs.MavCmdPreflightCalibration)
	consts["slugs.MavCmdPreflightRebootShutdown"] = int64(slugs.MavCmdPreflightRebootShutdown)
	consts["slugs.MavCmdPreflightSetSensorOffsets"] = int64(slugs.MavCmdPreflightSetSensorOffsets)
	consts["slugs.MavCmdPreflightStorage"] = int64(slugs.MavCmdPreflightStorage)
	consts["slugs.MavCmdPreflightUavcan"] = int64(slugs.MavCmdPreflightUavcan)
	consts["slugs.MavCmdRequestAutopilotCapabilities"] = int64(slugs.MavCmdRequestAutopilotCapabilities)
	consts["slugs.MavCmdRequestCameraCaptureStatus"] = int64(slugs.MavCmdRequestCameraCaptureStatus)
	consts["slugs.MavCmdRequestCameraImageCapture"] = int64(slugs.MavCmdRequestCameraImageCapture)
	consts["slugs.MavCmdRequestCameraInformation"] = int64(slugs.MavCmdRequestCameraInformation)
	consts["slugs.MavCmdRequestCameraSettings"] = int64(slugs.MavCmdRequestCameraSettings)
	consts["slugs.MavCmdRequestFlightInformation"] = int64(slugs.MavCmdRequestFlightInformation)
	consts["slugs.MavCmdRequestMessage"] = int64(slugs.MavCmdRequestMessage)
	consts["slugs.MavCmdRequestProtocolVersion"] = int64(slugs.MavCmdRequestProtocolVersion)
	consts["slugs.MavCmdRequestStorageInformation"] = int64(slugs.MavCmdRequestStorageInformation)
	consts["slugs.MavCmdRequestVIDeoStreamInformation"] = int64(slugs.MavCmdRequestVIDeoStreamInformation)
	consts["slugs.MavCmdRequestVIDeoStreamStatus"] = int64(slugs.MavCmdRequestVIDeoStreamStatus)
	consts["slugs.MavCmdResetCameraSettings"] = int64(slugs.MavCmdResetCameraSettings)
	consts["slugs.MavCmdReturnToBase"] = int64(slugs.MavCmdReturnToBase)
	consts["slugs.MavCmdSetCameraFocus"] = int64(slugs.MavCmdSetCameraFocus)
	consts["slugs.MavCmdSetCameraMode"] = int64(slugs.MavCmdSetCameraMode)
	consts["slugs.MavCmdSetCameraZoom"] = int64(slugs.MavCmdSetCameraZoom)
	consts["slugs.MavCmdSetGUIDedSubmodeCiRCle"] = int64(slugs.MavCmdSetGUIDedSubmodeCiRCle)
	consts["slugs.MavCmdSetGUIDedSubmodeStandard"] = int64(slugs.MavCmdSetGUIDedSubmodeStandard)
	consts["slugs.MavCmdSetMessageInterval"] = int64(slugs.MavCmdSetMessageInterval)
	consts["slugs.MavCmdSpatialUser1"] = int64(slugs.MavCmdSpatialUser1)
	consts["slugs.MavCmdSpatialUser2"] = int64(slugs.MavCmdSpatialUser2)
	consts["slugs.MavCmdSpatialUser3"] = int64(slugs.MavCmdSpatialUser3)
	consts["slugs.MavCmdSpatialUser4"] = int64(slugs.MavCmdSpatialUser4)
	consts["slugs.MavCmdSpatialUser5"] = int64(slugs.MavCmdSpatialUser5)
	consts["slugs.MavCmdStartRxPair"] = int64(slugs.MavCmdStartRxPair)
	consts["slugs.MavCmdStopReturnToBase"] = int64(slugs.MavCmdStopReturnToBase)
	consts["slugs.MavCmdStorageFormat"] = int64(slugs.MavCmdStorageFormat)
	consts["slugs.MavCmdTurnLight"] = int64(slugs.MavCmdTurnLight)
	consts["slugs.MavCmdUavcanGetNodeInfo"] = int64(slugs.MavCmdUavcanGetNodeInfo)
	consts["slugs.MavCmdUser1"] = int64(slugs.MavCmdUser1)
	consts["slugs.MavCmdUser2"] = int64(slugs.MavCmdUser2)
	consts["slugs.MavCmdUser3"] = int64(slugs.MavCmdUser3)
	consts["slugs.MavCmdUser4"] = int64(slugs.MavCmdUser4)
	consts["slugs.MavCmdUser5"] = int64(slugs.MavCmdUser5)
	consts["slugs.MavCmdVIDeoStartCapture"] = int64(slugs.MavCmdVIDeoStartCapture)
	consts["slugs.MavCmdVIDeoStartStreaming"] = int64(slugs.MavCmdVIDeoStartStreaming)
	consts["slugs.MavCmdVIDeoStopCapture"] = int64(slugs.MavCmdVIDeoStopCapture)
	consts["slugs.MavCmdVIDeoStopStreaming"] = int64(slugs.MavCmdVIDeoStopStreaming)
	consts["slugs.MavCmdWaypointUser1"] = int64(slugs.MavCmdWaypointUser1)
	consts["slugs.MavCmdWaypointUser2"] = int64(slugs.MavCmdWaypointUser2)
	consts["slugs.MavCmdWaypointUser3"] = int64(slugs.MavCmdWaypointUser3)
	consts["slugs.MavCmdWaypointUser4"] = int64(slugs.MavCmdWaypointUser4)
	consts["slugs.MavCmdWaypointUser5"] = int64(slugs.MavCmdWaypointUser5)
	consts["slugs.SlugsModeEnumEnd"] = int64(slugs.SlugsModeEnumEnd)
	consts["slugs.SlugsModeGrounded"] = int64(slugs.SlugsModeGrounded)
	consts["slugs.SlugsModeIsr"] = int64(slugs.SlugsModeIsr)
	consts["slugs.SlugsModeLanding"] = int64(slugs.SlugsModeLanding)
	consts["slugs.SlugsModeLiftoff"] = int64(slugs.SlugsModeLiftoff)
	consts["slugs.SlugsModeLinePatrol"] = int64(slugs.SlugsModeLinePatrol)
	consts["slugs.SlugsModeLost"] = int64(slugs.SlugsModeLost)
	consts["slugs.SlugsModeMIDLevel"] = int64(slugs.SlugsModeMIDLevel)
	consts["slugs.SlugsModeNone"] = int64(slugs.SlugsModeNone)
	consts["slugs.SlugsModePassthrough"] = int64(slugs.SlugsModePassthrough)
	consts["slugs.SlugsModeReturning"] = int64(slugs.SlugsModeReturning)
	consts["slugs.SlugsModeSelectivePassthrough"] = int64(slugs.SlugsModeSelectivePassthrough)
	consts["slugs.SlugsModeWaypoint"] = int64(slugs.SlugsModeWaypoint)
	consts["uAvionix.UavionixAdsbEmergencyStatusEnumEnd"] = int64(uavionix.UavionixAdsbEmergencyStatusEnumEnd)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeEnumEnd"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeEnumEnd)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL15MW23M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL15MW23M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL2534M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL2534M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL25MW28P5M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL25MW28P5M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL3533M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL3533M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL3538M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL3538M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL4539P5M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL4539P5M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL4545M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL4545M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL5545M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL5545M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL5552M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL5552M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL6559P5M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL6559P5M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL6567M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL6567M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL75W72P5M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL75W72P5M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL75W80M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL75W80M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL85W80M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL85W80M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeL85W90M"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeL85W90M)
	consts["uAvionix.UavionixAdsbOutCfgAiRCraftSizeNoData"] = int64(uavionix.UavionixAdsbOutCfgAiRCraftSizeNoData)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLatEnumEnd"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLatEnumEnd)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLatLeft2M"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLatLeft2M)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLatLeft4M"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLatLeft4M)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLatLeft6M"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLatLeft6M)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLatNoData"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLatNoData)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLatRight0M"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLatRight0M)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLatRight2M"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLatRight2M)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLatRight4M"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLatRight4M)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLatRight6M"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLatRight6M)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLonAppliedBySensor"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLonAppliedBySensor)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLonEnumEnd"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLonEnumEnd)
	consts["uAvionix.UavionixAdsbOutCfgGPSOffsetLonNoData"] = int64(uavionix.UavionixAdsbOutCfgGPSOffsetLonNoData)
	consts["uAvionix.UavionixAdsbOutDownedAiRCraftEmergency"] = int64(uavionix.UavionixAdsbOutDownedAiRCraftEmergency)
	consts["uAvionix.UavionixAdsbOutDynamicGPSFix2D"] = int64(uavionix.UavionixAdsbOutDynamicGPSFix2D)
	consts["uAvionix.UavionixAdsbOutDynamicGPSFix3D"] = int64(uavionix.UavionixAdsbOutDynamicGPSFix3D)
	consts["uAvionix.UavionixAdsbOutDynamicGPSFixDGPS"] = int64(uavionix.UavionixAdsbOutDynamicGPSFixDGPS)
	consts["uAvionix.UavionixAdsbOutDynamicGPSFixEnumEnd"] = int64(uavionix.UavionixAdsbOutDynamicGPSFixEnumEnd)
	consts["uAvionix.UavionixAdsbOutDynamicGPSFixNone0"] = int64(uavionix.UavionixAdsbOutDynamicGPSFixNone0)
	consts["uAvionix.UavionixAdsbOutDynamicGPSFixNone1"] = int64(uavionix.UavionixAdsbOutDynamicGPSFixNone1)
	consts["uAvionix.UavionixAdsbOutDynamicGPSFixRtk"] = int64(uavionix.UavionixAdsbOutDynamicGPSFixRtk)
	consts["uAvionix.UavionixAdsbOutDynamicStateAutopilotEnabled"] = int64(uavionix.UavionixAdsbOutDynamicStateAutopilotEnabled)
	consts["uAvionix.UavionixAdsbOutDynamicStateEnumEnd"] = int64(uavionix.UavionixAdsbOutDynamicStateEnumEnd)
	consts["uAvionix.UavionixAdsbOutDynamicStateIDent"] = int64(uavionix.UavionixAdsbOutDynamicStateIDent)
	consts["uAvionix.UavionixAdsbOutDynamicStateIntentChange"] = int64(uavionix.UavionixAdsbOutDynamicStateIntentChange)
	consts["uAvionix.UavionixAdsbOutDynamicStateNicbaroCrosschecked"] = int64(uavionix.UavionixAdsbOutDynamicStateNicbaroCrosschecked)
	consts["uAvionix.UavionixAdsbOutDynamicStateOnGround"] = int64(uavionix.UavionixAdsbOutDynamicStateOnGround)
	consts["uAvionix.UavionixAdsbOutGeneralEmergency"] = int64(uavionix.UavionixAdsbOutGeneralEmergency)
	consts["uAvionix.UavionixAdsbOutLifeguardEmergency"] = int64(uavionix.UavionixAdsbOutLifeguardEmergency)
	consts["uAvionix.UavionixAdsbOutMinIMUmFuelEmergency"] = int64(uavionix.UavionixAdsbOutMinIMUmFuelEmergency)
	consts["uAvionix.UavionixAdsbOutNoCommEmergency"] = int64(uavionix.UavionixAdsbOutNoCommEmergency)
	consts["uAvionix.UavionixAdsbOutNoEmergency"] = int64(uavionix.UavionixAdsbOutNoEmergency)
	consts["uAvionix.UavionixAdsbOutReserved"] = int64(uavionix.UavionixAdsbOutReserved)
	consts["uAvionix.UavionixAdsbOutRfSelectEnumEnd"] = int64(uavionix.UavionixAdsbOutRfSelectEnumEnd)
	consts["uAvionix.UavionixAdsbOutRfSelectRxEnabled"] = int64(uavionix.UavionixAdsbOutRfSelectRxEnabled)
	consts["uAvionix.UavionixAdsbOutRfSelectStandby"] = int64(uavionix.UavionixAdsbOutRfSelectStandby)
	consts["uAvionix.UavionixAdsbOutRfSelectTxEnabled"] = int64(uavionix.UavionixAdsbOutRfSelectTxEnabled)
	consts["uAvionix.UavionixAdsbOutUnlawfulInterferanceEmergency"] = int64(uavionix.UavionixAdsbOutUnlawfulInterferanceEmergency)
	consts["uAvionix.UavionixAdsbRfHealthEnumEnd"] = int64(uavionix.UavionixAdsbRfHealthEnumEnd)
	consts["uAvionix.UavionixAdsbRfHealthFailRx"] = int64(uavionix.UavionixAdsbRfHealthFailRx)
	consts["uAvionix.UavionixAdsbRfHealthFailTx"] = int64(uavionix.UavionixAdsbRfHealthFailTx)
	consts["uAvionix.UavionixAdsbRfHealthInitializing"] = int64(uavionix.UavionixAdsbRfHealthInitializing)
	consts["uAvionix.UavionixAdsbRfHealthOk"] = int64(uavionix.UavionixAdsbRfHealthOk)
	consts["ualberta.ModeAutoPIDAtt"] = int64(ualberta.ModeAutoPIDAtt)
	consts["ualberta.ModeAutoPIDPos"] = int64(ualberta.ModeAutoPIDPos)
	consts["ualberta.ModeAutoPIDVel"] = int64(ualberta.ModeAutoPIDVel)
	consts["ualberta.ModeManualDirect"] = int64(ualberta.ModeManualDirect)
	consts["ualberta.ModeManualScaled"] = int64(ualberta.ModeManualScaled)
	consts["ualberta.NAVAHRS"] = int64(ualberta.NAVAHRS)
	consts["ualberta.NAVAHRSInit"] = int64(ualberta.NAVAHRSInit)
	consts["ualberta.NAVInsGPS"] = int64(ualberta.NAVInsGPS)
	consts["ualberta.NAVInsGPSInit"] = int64(ualberta.NAVInsGPSInit)
	consts["ualberta.PilotAuto"] = int64(ualberta.PilotAuto)
	consts["ualberta.PilotManual"] = int64(ualberta.PilotManual)
	consts["ualberta.PilotRoto"] = int64(ualberta.PilotRoto)
	consts["ualberta.UalbertaAutopilotModeEnumEnd"] = int64(ualberta.UalbertaAutopilotModeEnumEnd)
	consts["ualberta.UalbertaNAVModeEnumEnd"] = int64(ualberta.UalbertaNAVModeEnumEnd)
	consts["ualberta.UalbertaPilotModeEnumEnd"] = int64(ualberta.UalbertaPilotModeEnumEnd)
}
