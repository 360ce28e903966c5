#include <complex>
#include <cmath>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
extern "C" {
void vp_e2m(double r, double p, double y, double *o) { Eigen::Matrix3d R = eulerAnglesZYXToRotationMatrix(Eigen::Vector3d(r, p, y)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[3 * i + j] = R(i, j); }
void vp_e2q(double r, double p, double y, double *o) { Eigen::Quaterniond q = eulerAnglesZYXToQuaternion(Eigen::Vector3d(r, p, y)); o[0] = q.w(); o[1] = q.x(); o[2] = q.y(); o[3] = q.z(); }
void vp_q2m(double w, double x, double y, double z, double *o) { Eigen::Matrix3d R = quaternionToRotationMatrix(Eigen::Quaterniond(w, x, y, z)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[3 * i + j] = R(i, j); }
void vp_q2e(double w, double x, double y, double z, double *o) { Eigen::Vector3d e = quaternionToEulerAnglesZYX(Eigen::Quaterniond(w, x, y, z)); for (int i = 0; i < 3; i++) o[i] = e(i); }
void vp_m2e(double *m, double *o) { Eigen::Matrix3d R; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = m[3 * i + j]; Eigen::Vector3d e = rotationMatrixToEulerAnglesZYX(R); for (int i = 0; i < 3; i++) o[i] = e(i); }
void vp_m2q(double *m, double *o) { Eigen::Matrix3d R; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = m[3 * i + j]; Eigen::Quaterniond q = RotationMatrixToQuaternion(R); o[0] = q.w(); o[1] = q.x(); o[2] = q.y(); o[3] = q.z(); }
void vp_m2q_ref(double *m, double *o) { Eigen::Matrix3d R; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = m[3 * i + j]; Eigen::Quaterniond q(R); o[0] = q.w(); o[1] = q.x(); o[2] = q.y(); o[3] = q.z(); }
void vp_e2q2m(double r, double p, double y, double *o) { Eigen::Matrix3d R = quaternionToRotationMatrix(eulerAnglesZYXToQuaternion(Eigen::Vector3d(r, p, y))); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[3 * i + j] = R(i, j); }
}
